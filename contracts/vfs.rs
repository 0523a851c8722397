// Unit: the caches of the virtual file system (C30).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@option once_cell chains
//@rw type Arc<FxDashMap<FileId, SourceIdShard>> => DashMap
//@rw type Arc<OnceLock<(Option<Path>, usize, Result<Bytes, FileError>)>> => ByteCell
//@rw type Arc<OnceLock<Result<Source, FileError>>> => SrcCell
//@rw type Arc<Mutex<EntryMap>> => EmLock
//@rw type Arc<Mutex<PathMap>> => PmLock
//@rw type FxHashMap<$k, $v> => HMap<$k, $v>
//@rw type EcoVec<$t> => Vec<$t>
//@rw expr Mutex::new($x) => vx_share($x)
//@rw expr Arc::default() => vx_fresh()
//@rw expr VfsEntry::default() => vx_entry()
//@rw expr EntryMap::default() => vx_no_entries()
//@rw expr PathMap::default() => vx_no_paths()
//@rw expr SourceCache::default() => vx_no_sources()
//@rw expr std::mem::take($x) => vx_take($x)
//@rw expr mem::take($x) => vx_take($x)
//@rw expr $x.get() => $x.vx_peek()
//@rw expr $x == $y => vx_eq(&$x, &$y)
//@rw expr $x != $y => !vx_eq(&$x, &$y)
//@rw expr vx_dup_(&$x).iter() => vx_iter_own(&$x)
//@rw expr $x.iter() => vx_iter(&$x)
//@rw expr $m.insert($a, $b, $c) => $m.insert_path($a, $b, $c)
//@rw expr $x.checked_add($y) => vx_checked_add($x, $y)
//@rw expr NonZeroUsize::new($x) => vx_nonzero($x)
//@rw expr |c| vx_dup_(&c) => vx_dup_::<Path>
//@rw expr |c| *c => vx_dup_::<FileId>
//@rw expr $m.cache_entries.entry($k).or_default() => $m.cache_entries.vx_shard($k)
//@thread vx_share vx_fresh vx_entry vx_peek vx_init vx_shard lock read_content detach source fork revise is_clean_compile invalidate_path invalidate_file_id map_shadow unmap_shadow map_shadow_by_id remove_shadow_by_id notify_fs_changes reset_shadow reset_cache
//@include overlay_core.rs
type VfsPathAccessModel<M> = OverlayAccessModel<Path, NotifyAccessModel<SharedAccessModel<M>>>;
type VfsAccessModel<M> = OverlayAccessModel<FileId, ResolveAccessModel<VfsPathAccessModel<M>>>;
type BytesQuery = ByteCell;
impl<K: Ord, M> VxDup for OverlayAccessModel<K, M> { type O = Self; spec fn same(&self, o: &Self) -> bool { *self == *o } }

// ---- numbers --------------------------------------------------------------------------
#[verifier::external_body]
#[derive(Clone, Copy)]
struct NonZeroUsize { x: usize }
impl View for NonZeroUsize { type V = int; uninterp spec fn view(&self) -> int; }
#[verifier::external_body]
fn vx_nonzero(n: usize) -> (r: Option<NonZeroUsize>) ensures r is Some <==> n > 0, r is Some ==> r->0@ == n { unimplemented!() }
#[verifier::external_body]
fn vx_checked_add(a: NonZeroUsize, n: usize) -> (r: Option<NonZeroUsize>) ensures r is Some <==> a@ + n <= usize::MAX, r is Some ==> r->0@ == a@ + n { unimplemented!() }

// ---- the heap: cells that are filled once, locks ----------------------------------------
/// a parsed source: whose file it is, and its text
#[verifier::external_body]
struct Source { x: u8 }
/// std's OnceLock behind an Arc: copies are the same cell
#[verifier::external_body]
struct ByteCell { x: u8 }
#[verifier::external_body]
struct SrcCell { x: u8 }
impl ByteCell { uninterp spec fn id(&self) -> int; }
impl SrcCell { uninterp spec fn id(&self) -> int; }
type BVal = (Option<Path>, usize, Result<Bytes, FileError>);
type SVal = Result<Source, FileError>;
#[verifier::external_body]
struct EmLock { x: u8 }
#[verifier::external_body]
struct PmLock { x: u8 }
impl EmLock { uninterp spec fn id(&self) -> int; }
impl PmLock { uninterp spec fn id(&self) -> int; }
#[verifier::external_body]
struct DashMap { x: u8 }
impl VxDup for ByteCell { type O = ByteCell; spec fn same(&self, o: &ByteCell) -> bool { *self == *o } }
impl VxDup for SrcCell { type O = SrcCell; spec fn same(&self, o: &SrcCell) -> bool { *self == *o } }
impl VxDup for EmLock { type O = EmLock; spec fn same(&self, o: &EmLock) -> bool { *self == *o } }
impl VxDup for PmLock { type O = PmLock; spec fn same(&self, o: &PmLock) -> bool { *self == *o } }
impl VxDup for SourceCache { type O = SourceCache; spec fn same(&self, o: &SourceCache) -> bool { *self == *o } }
tracked struct World {
    /// what the cells hold
    ghost bc: Map<int, Option<BVal>>,
    ghost sc: Map<int, Option<SVal>>,
    /// what the locks guard
    ghost em: Map<int, EntryMap>,
    ghost pm: Map<int, PathMap>,
    /// the shared cache of parsed sources
    ghost cache: Map<FileId, SourceIdShard>,
}
//@type crates/tinymist-vfs/src/lib.rs SourceEntry
//@type crates/tinymist-vfs/src/lib.rs SourceIdShard
//@type crates/tinymist-vfs/src/lib.rs SourceCache
//@type crates/tinymist-vfs/src/lib.rs VfsEntry
//@type crates/tinymist-vfs/src/lib.rs EntryMap
//@type crates/tinymist-vfs/src/lib.rs PathMap
//@type crates/tinymist-vfs/src/lib.rs Vfs #[verifier::reject_recursive_types(M)]
//@type crates/tinymist-vfs/src/lib.rs RevisingVfs #[verifier::reject_recursive_types(M)]
/// a hash map
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct HMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl VxKey for Bytes { type K = Seq<u8>; spec fn key(&self) -> Seq<u8> { self@ } }
impl<'a, T: VxKey> VxKey for &'a T { type K = T::K; spec fn key(&self) -> T::K { (**self).key() } }
impl<'a, T: VxDup> VxDup for &'a mut T { type O = T::O; spec fn same(&self, o: &T::O) -> bool { (**self).same(o) } }
impl<T> VxDup for Vec<T> { type O = Vec<T>; spec fn same(&self, o: &Vec<T>) -> bool { self@ == o@ } }
impl<K: VxKey, V> VxDup for RbMap<K, V> { type O = RbMap<K, V>; spec fn same(&self, o: &RbMap<K, V>) -> bool { *self == *o } }
impl VxDup for PathMap { type O = PathMap; spec fn same(&self, o: &PathMap) -> bool { *self == *o } }
impl VxDup for EntryMap { type O = EntryMap; spec fn same(&self, o: &EntryMap) -> bool { *self == *o } }
impl<T: VxDup<O = T>, E> VxDup for Result<T, E> { type O = Result<T, E>; spec fn same(&self, o: &Result<T, E>) -> bool { *self == *o } }
/// equality as the code tests it
trait VxEq { type K; spec fn eqk(&self) -> Self::K; }
impl VxEq for Path { type K = PKey; spec fn eqk(&self) -> PKey { pk(self@) } }
impl VxEq for FileId { type K = FileId; spec fn eqk(&self) -> FileId { *self } }
impl VxEq for NonZeroUsize { type K = int; spec fn eqk(&self) -> int { self@ } }
impl VxEq for usize { type K = int; spec fn eqk(&self) -> int { *self as int } }
impl<'a, T: VxEq> VxEq for &'a T { type K = T::K; spec fn eqk(&self) -> T::K { (**self).eqk() } }
impl<'a, T: VxEq> VxEq for &'a mut T { type K = T::K; spec fn eqk(&self) -> T::K { (**self).eqk() } }
#[verifier::external_body]
fn vx_eq<T: VxEq, U: VxEq<K = T::K>>(a: &T, b: &U) -> (r: bool) ensures r == (a.eqk() == b.eqk()) { unimplemented!() }

#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct OccEntry<'a, K: VxKey, V> { k: K, m: &'a mut HMap<K, V> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct VacEntry<'a, K: VxKey, V> { k: K, m: &'a mut HMap<K, V> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
enum Entry<'a, K: VxKey, V> { Occupied(OccEntry<'a, K, V>), Vacant(VacEntry<'a, K, V>) }
trait VxEmpty: Sized { spec fn is_empty_(&self) -> bool; }
impl<T> VxEmpty for Vec<T> { spec fn is_empty_(&self) -> bool { self@ == Seq::<T>::empty() } }
impl<K: VxKey, V> HMap<K, V> {
    uninterp spec fn view(&self) -> Map<K::K, V>;
    #[verifier::external_body]
    fn get<Q: VxKey<K = K::K> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some <==> self@.dom().contains(k.key()), r is Some ==> *(r->0) == self@[k.key()] { unimplemented!() }
    #[verifier::external_body]
    fn contains_key<Q: VxKey<K = K::K> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.dom().contains(k.key()) { unimplemented!() }
    #[verifier::external_body]
    fn get_mut<Q: VxKey<K = K::K> + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.dom().contains(k.key()),
            r is Some ==> *(r->0) == old(self)@[k.key()] && final(self)@ == old(self)@.insert(k.key(), *final(r->0)),
            r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.key(), v) { unimplemented!() }
    #[verifier::external_body]
    fn remove<Q: VxKey<K = K::K> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.key()) { unimplemented!() }
    #[verifier::external_body]
    fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures match r {
            Entry::Occupied(o) => old(self)@.dom().contains(k.key()) && o.k.key() == k.key() && *o.m == *old(self) && *final(o.m) == *final(self),
            Entry::Vacant(o) => !old(self)@.dom().contains(k.key()) && o.k.key() == k.key() && *o.m == *old(self) && *final(o.m) == *final(self),
        } { unimplemented!() }
}
impl<'a, K: VxKey, V> OccEntry<'a, K, V> {
    #[verifier::external_body]
    fn get_mut(&mut self) -> (r: &mut V)
        requires old(self).m@.dom().contains(old(self).k.key())
        ensures *r == old(self).m@[old(self).k.key()], final(self).m@ == old(self).m@.insert(old(self).k.key(), *final(r)), final(self).k == old(self).k,
            *final(final(self).m) == *final(old(self).m) { unimplemented!() }
}
impl<'a, K: VxKey, V> VacEntry<'a, K, V> {
    #[verifier::external_body]
    fn insert(self, v: V) ensures (*final(self.m))@ == (*old(self.m))@.insert(self.k.key(), v) { unimplemented!() }
}
impl<'a, K: VxKey, V: VxEmpty> Entry<'a, K, V> {
    #[verifier::external_body]
    fn or_default(self) -> (r: &'a mut V)
        ensures match self {
            Entry::Occupied(o) => *r == o.m@[o.k.key()] && (*final(o.m))@ == o.m@.insert(o.k.key(), *final(r)),
            Entry::Vacant(o) => r.is_empty_() && (*final(o.m))@ == o.m@.insert(o.k.key(), *final(r)),
        } { unimplemented!() }
}
impl<'a, T> VxColl for &'a [T] { type Item = &'a T; spec fn items(self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == self@[i] } }
trait VxTakeAll: Sized { type E; fn vx_take_all(&mut self) -> Self; fn vx_put_back(&mut self, e: Self::E); }
impl VxTakeAll for Vec<FileId> {
    type E = FileId;
    #[verifier::external_body]
    fn vx_take_all(&mut self) -> (r: Self) ensures r@ == old(self)@, final(self)@ == Seq::<FileId>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn vx_put_back(&mut self, e: FileId) ensures final(self)@ == old(self)@.push(e) { unimplemented!() }
}
broadcast proof fn vx_has_push(s: Seq<FileId>, e: FileId, f: FileId) ensures (#[trigger] s.push(e).contains(f)) <==> (s.contains(f) || f == e)
{
    if s.contains(f) { let i = choose|i: int| 0 <= i < s.len() && s[i] == f; assert(s.push(e)[i] == f); }
    if f == e { assert(s.push(e)[s.len() as int] == f); }
    if s.push(e).contains(f) && f != e { let i = choose|i: int| 0 <= i < s.push(e).len() && s.push(e)[i] == f; assert(s[i] == f); }
}
broadcast proof fn vx_has_take(s: Seq<FileId>, n: int, f: FileId) requires 0 <= n < s.len()
    ensures (#[trigger] s.take(n + 1).contains(f)) <==> (s.take(n).contains(f) || f == s[n])
{ assert(s.take(n + 1) =~= s.take(n).push(s[n])); vx_has_push(s.take(n), s[n], f); }

// ---- what is fresh --------------------------------------------------------------------
trait VxFresh: Sized { spec fn fresh(self, w0: World, w1: World) -> bool; }
impl VxFresh for ByteCell { spec fn fresh(self, w0: World, w1: World) -> bool { !w0.bc.dom().contains(self.id()) && w1 == (World { bc: w0.bc.insert(self.id(), None), ..w0 }) } }
impl VxFresh for SrcCell { spec fn fresh(self, w0: World, w1: World) -> bool { !w0.sc.dom().contains(self.id()) && w1 == (World { sc: w0.sc.insert(self.id(), None), ..w0 }) } }
impl VxFresh for EmLock { spec fn fresh(self, w0: World, w1: World) -> bool { !w0.em.dom().contains(self.id()) && exists|m: EntryMap| m.entries@ == Map::<FileId, VfsEntry>::empty() && w1 == (World { em: w0.em.insert(self.id(), m), ..w0 }) } }
impl VxFresh for PmLock { spec fn fresh(self, w0: World, w1: World) -> bool { !w0.pm.dom().contains(self.id()) && exists|m: PathMap| m.is_empty_() && w1 == (World { pm: w0.pm.insert(self.id(), m), ..w0 }) } }
#[verifier::external_body]
fn vx_fresh<T: VxFresh>(Tracked(w): Tracked<&mut World>) -> (r: T) ensures r.fresh(*old(w), *final(w)) { unimplemented!() }
trait VxShare: Sized { type L; spec fn put(self, l: Self::L, w0: World, w1: World) -> bool; }
impl VxShare for EntryMap { type L = EmLock; spec fn put(self, l: EmLock, w0: World, w1: World) -> bool { !w0.em.dom().contains(l.id()) && w1 == (World { em: w0.em.insert(l.id(), self), ..w0 }) } }
impl VxShare for PathMap { type L = PmLock; spec fn put(self, l: PmLock, w0: World, w1: World) -> bool { !w0.pm.dom().contains(l.id()) && w1 == (World { pm: w0.pm.insert(l.id(), self), ..w0 }) } }
#[verifier::external_body]
fn vx_share<T: VxShare>(t: T, Tracked(w): Tracked<&mut World>) -> (r: T::L) ensures t.put(r, *old(w), *final(w)) { unimplemented!() }
impl VxEmpty for EntryMap { spec fn is_empty_(&self) -> bool { self.entries@ == Map::<FileId, VfsEntry>::empty() } }
impl VxEmpty for PathMap { spec fn is_empty_(&self) -> bool { self.paths@ == Map::<PKey, Vec<FileId>>::empty() && self.file_ids@ == Map::<FileId, (Path, NonZeroUsize)>::empty() } }
#[verifier::external_body]
fn vx_take<T: VxEmpty>(t: &mut T) -> (r: T) ensures r == *old(t), final(t).is_empty_() { unimplemented!() }
#[verifier::external_body]
fn vx_no_entries() -> (r: EntryMap) ensures r.is_empty_() { unimplemented!() }
#[verifier::external_body]
fn vx_no_paths() -> (r: PathMap) ensures r.is_empty_() { unimplemented!() }
#[verifier::external_body]
fn vx_no_sources() -> (r: SourceCache) { unimplemented!() }
/// the derived default
fn vx_entry(Tracked(w): Tracked<&mut World>) -> (r: VfsEntry)
    ensures r.changed_at == 0, blank(*old(w), *final(w), r), only_fresh(*old(w), *final(w))
{ let b: ByteCell = vx_fresh(Tracked(w)); let s: SrcCell = vx_fresh(Tracked(w)); VfsEntry { changed_at: 0, bytes: b, source: s } }
impl ByteCell {
    #[verifier::external_body]
    fn vx_peek(&self, Tracked(w): Tracked<&mut World>) -> (r: Option<&BVal>)
        requires old(w).bc.dom().contains(self.id())
        ensures *final(w) == *old(w), old(w).bc[self.id()] is Some <==> r is Some, r is Some ==> old(w).bc[self.id()] == Some(*(r->0)) { unimplemented!() }
    #[verifier::external_body]
    fn vx_init(&self, v: BVal, Tracked(w): Tracked<&mut World>) -> (r: &BVal)
        requires old(w).bc.dom().contains(self.id()), old(w).bc[self.id()] is None
        ensures *r == v, *final(w) == (World { bc: old(w).bc.insert(self.id(), Some(v)), ..*old(w) }) { unimplemented!() }
}
impl SrcCell {
    #[verifier::external_body]
    fn vx_peek(&self, Tracked(w): Tracked<&mut World>) -> (r: Option<&SVal>)
        requires old(w).sc.dom().contains(self.id())
        ensures *final(w) == *old(w), old(w).sc[self.id()] is Some <==> r is Some, r is Some ==> old(w).sc[self.id()] == Some(*(r->0)) { unimplemented!() }
    #[verifier::external_body]
    fn vx_init(&self, v: SVal, Tracked(w): Tracked<&mut World>) -> (r: &SVal)
        requires old(w).sc.dom().contains(self.id()), old(w).sc[self.id()] is None
        ensures *r == v, *final(w) == (World { sc: old(w).sc.insert(self.id(), Some(v)), ..*old(w) }) { unimplemented!() }
}
impl NonZeroUsize {
    #[verifier::external_body]
    fn vx_peek(&self, Tracked(w): Tracked<&mut World>) -> (r: usize) ensures r == self@, r > 0, *final(w) == *old(w) { unimplemented!() }
}
impl EmLock {
    #[verifier::external_body]
    fn lock(&self, Tracked(w): Tracked<&mut World>) -> (r: &mut EntryMap)
        requires old(w).em.dom().contains(self.id())
        ensures *r == old(w).em[self.id()], final(w).em.dom().contains(self.id()), final(w).em == old(w).em.insert(self.id(), *final(r)), final(w).pm == old(w).pm, final(w).bc == old(w).bc, final(w).sc == old(w).sc, final(w).cache == old(w).cache { unimplemented!() }
}
impl PmLock {
    #[verifier::external_body]
    fn lock(&self, Tracked(w): Tracked<&mut World>) -> (r: &mut PathMap)
        requires old(w).pm.dom().contains(self.id())
        ensures *r == old(w).pm[self.id()], final(w).pm.dom().contains(self.id()), final(w).pm == old(w).pm.insert(self.id(), *final(r)), final(w).em == old(w).em, final(w).bc == old(w).bc, final(w).sc == old(w).sc, final(w).cache == old(w).cache { unimplemented!() }
}

// ---- the invariants -------------------------------------------------------------------
/// the entry has cells of its own that nothing was put in yet
spec fn blank(w0: World, w1: World, e: VfsEntry) -> bool {
    !w0.bc.dom().contains(e.bytes.id()) && !w0.sc.dom().contains(e.source.id()) && empty_cells(w1, e)
}
spec fn empty_cells(w: World, e: VfsEntry) -> bool {
    w.bc.dom().contains(e.bytes.id()) && w.bc[e.bytes.id()] is None && w.sc.dom().contains(e.source.id()) && w.sc[e.source.id()] is None
}
/// nothing but new cells and locks came up
spec fn grown(w0: World, w1: World) -> bool {
    &&& w1.cache == w0.cache
    &&& forall|i: int| #[trigger] w0.em.dom().contains(i) ==> w1.em.dom().contains(i) && w1.em[i] == w0.em[i]
    &&& forall|i: int| #[trigger] w0.pm.dom().contains(i) ==> w1.pm.dom().contains(i) && w1.pm[i] == w0.pm[i]
    &&& forall|i: int| #[trigger] w0.bc.dom().contains(i) ==> w1.bc.dom().contains(i) && w1.bc[i] == w0.bc[i]
    &&& forall|i: int| #[trigger] w0.sc.dom().contains(i) ==> w1.sc.dom().contains(i) && w1.sc[i] == w0.sc[i]
}
spec fn only_fresh(w0: World, w1: World) -> bool { grown(w0, w1) && w1.em == w0.em && w1.pm == w0.pm }
/// the files read from a path
spec fn at_path(m: PathMap, p: PKey) -> Seq<FileId> { if m.paths@.dom().contains(p) { m.paths@[p]@ } else { Seq::empty() } }
impl PathMap {
    spec fn wf(&self) -> bool { forall|f: FileId| #[trigger] self.file_ids@.dom().contains(f) ==> at_path(*self, pk(self.file_ids@[f].0@)).contains(f) }
//@fn crates/tinymist-vfs/src/lib.rs PathMap::insert as insert_path C30
    requires old(self).wf()
    ensures final(self).wf(), at_path(*final(self), pk(next@)).contains(fid),
        forall|p: PKey, f: FileId| f != fid ==> (#[trigger] at_path(*final(self), p).contains(f) <==> at_path(*old(self), p).contains(f)),
        forall|p: PKey| #[trigger] at_path(*final(self), p).contains(fid) ==> p == pk(next@) || at_path(*old(self), p).contains(fid),
//@entry
    broadcast use vx_has_push;
//@loop 0 for
    invariant_except_break forall|f: FileId| #[trigger] fids@.contains(f) <==> (f != fid && vx_it0.all().take(vx_it0.pos()).contains(f))
    invariant 0 <= vx_it0.pos() <= vx_it0.all().len(), vx_it0.all() == at_path(*old(self), pk(old(self).file_ids@[fid].0@))
    ensures vx_it0.pos() == vx_it0.all().len(), forall|f: FileId| #[trigger] fids@.contains(f) <==> (f != fid && vx_it0.all().contains(f))
    decreases vx_it0.all().len() - vx_it0.pos()
//@loopstart 0
    broadcast use vx_has_push;
    proof { if vx_it0.pos() < vx_it0.all().len() { assert forall|f: FileId| #[trigger] vx_it0.all().take(vx_it0.pos() + 1).contains(f) <==> (vx_it0.all().take(vx_it0.pos()).contains(f) || f == vx_it0.all()[vx_it0.pos()]) by { vx_has_take(vx_it0.all(), vx_it0.pos(), f); } } else { assert(vx_it0.all().take(vx_it0.pos()) =~= vx_it0.all()); } }
//@end
//@fn crates/tinymist-vfs/src/lib.rs PathMap::get C30
//@ret r
    ensures *final(self) == *old(self), r is Some ==> (r->0)@ == at_path(*old(self), pk(path@)), r is None ==> at_path(*old(self), pk(path@)).len() == 0
//@end
}

#[verifier::external_body]
fn vx_iter_own<K: Ord, V>(m: &RbMap<K, V>) -> (r: VxIt<(K, V)>)
    ensures r.pos() == 0, forall|i: int| 0 <= i < r.all().len() ==> m@.dom().contains((#[trigger] r.all()[i]).0.key()) && m@[r.all()[i].0.key()] == r.all()[i].1,
        forall|k: K::K| #[trigger] m@.dom().contains(k) ==> exists|i: int| 0 <= i < r.all().len() && (#[trigger] r.all()[i]).0.key() == k { unimplemented!() }
#[verifier::external_body]
fn vx_or0(x: Option<usize>) -> (r: usize) ensures r == (match x { Some(n) => n, None => 0 }) { unimplemented!() }
// ---- the heap and what is in it ---------------------------------------------------------
/// the entries' cells are there
spec fn own(w: World, a: EntryMap) -> bool {
    forall|f: FileId| #[trigger] a.entries@.dom().contains(f) ==> w.bc.dom().contains(a.entries@[f].bytes.id()) && w.sc.dom().contains(a.entries@[f].source.id())
}
spec fn touch(a: VfsEntry, b: VfsEntry) -> bool { a.bytes.id() == b.bytes.id() || a.source.id() == b.source.id() }
/// no two files share a cell
spec fn sep_self(a: EntryMap) -> bool {
    forall|f: FileId, g: FileId| #![trigger a.entries@.dom().contains(f), a.entries@.dom().contains(g)] a.entries@.dom().contains(f) && a.entries@.dom().contains(g) && touch(a.entries@[f], a.entries@[g]) ==> f == g
}
/// two views share what is read, and nothing that is yet to be read
spec fn sep(w: World, a: EntryMap, b: EntryMap) -> bool {
    forall|f: FileId, g: FileId| #![trigger a.entries@.dom().contains(f), b.entries@.dom().contains(g)] a.entries@.dom().contains(f) && b.entries@.dom().contains(g) && touch(a.entries@[f], b.entries@[g])
        ==> f == g && a.entries@[f].bytes.id() == b.entries@[g].bytes.id() && a.entries@[f].source.id() == b.entries@[g].source.id() && w.bc[a.entries@[f].bytes.id()] is Some
}
spec fn apart(w: World, a: EntryMap) -> bool { forall|i: int| #[trigger] w.em.dom().contains(i) ==> sep(w, a, w.em[i]) }
spec fn sound(w: World) -> bool {
    &&& forall|i: int| #[trigger] w.em.dom().contains(i) ==> own(w, w.em[i]) && sep_self(w.em[i])
    &&& forall|f: FileId| #[trigger] w.cache.dom().contains(f) ==> shard_ok(f, w.cache[f])
    &&& forall|i: int, j: int| #![trigger w.em.dom().contains(i), w.em.dom().contains(j)] w.em.dom().contains(i) && w.em.dom().contains(j) && i != j ==> sep(w, w.em[i], w.em[j])
}
/// UTF-8, std's
uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
spec fn bom() -> Seq<u8> { seq![0xefu8, 0xbbu8, 0xbfu8] }
/// the text of a file
spec fn decode(b: Seq<u8>) -> Option<Seq<char>> { if b.len() >= 3 && b.take(3) == bom() { utf8(b.skip(3)) } else { utf8(b) } }
impl Source { uninterp spec fn fid(&self) -> FileId; uninterp spec fn text(&self) -> Seq<char>; }
spec fn goodb(f: FileId, b: Seq<u8>, s: SVal) -> bool {
    match decode(b) { None => s == Err::<Source, FileError>(FileError::InvalidUtf8), Some(t) => s is Ok && (s->Ok_0).fid() == f && (s->Ok_0).text() == t }
}
/// the source of a file is the parsed text of its content
spec fn good(f: FileId, c: Result<Bytes, FileError>, s: SVal) -> bool {
    match c { Ok(b) => goodb(f, b@, s), Err(e) => s == Err::<Source, FileError>(e) }
}
spec fn shard_ok(f: FileId, s: SourceIdShard) -> bool {
    &&& forall|k: Seq<u8>| #[trigger] s.sources@.dom().contains(k) ==> goodb(f, k, s.sources@[k].source)
    &&& s.recent_source matches Some(r) ==> r.fid() == f
}
/// what is cached is what the layers give, and its path is known
spec fn coh<M: PathAccessModel>(w: World, am: VfsAccessModel<M>, a: EntryMap, p: PathMap, rev: int) -> bool {
    forall|f: FileId| #[trigger] a.entries@.dom().contains(f) ==> coh1(w, am, a.entries@[f], f, p, rev)
}
spec fn coh1<M: PathAccessModel>(w: World, am: VfsAccessModel<M>, e: VfsEntry, f: FileId, p: PathMap, rev: int) -> bool {
    &&& w.bc[e.bytes.id()] matches Some(v) ==> am.gives_id(f, v.0, v.2) && v.1 <= rev && (v.0 matches Some(q) ==> at_path(p, pk(q@)).contains(f))
    &&& w.sc[e.source.id()] matches Some(s) ==> w.bc[e.bytes.id()] is Some && good(f, (w.bc[e.bytes.id()]->0).2, s)
}
/// the path the file is read from
spec fn leads<M: PathAccessModel>(am: VfsAccessModel<M>, f: FileId, p: PKey) -> bool { am.inner.resolver.path_of(f) matches Ok(PathResolution::Resolved(q)) && pk(q@) == p }
/// files are kept under their own path only
spec fn routed<M: PathAccessModel>(am: VfsAccessModel<M>, m: PathMap) -> bool { forall|p: PKey, f: FileId| #[trigger] at_path(m, p).contains(f) ==> leads(am, f, p) }
spec fn fits<M: PathAccessModel>(w: World, v: Vfs<M>) -> bool {
    &&& routed(v.access_model, w.pm[v.paths.id()])
    &&& w.em.dom().contains(v.managed.id()) && w.pm.dom().contains(v.paths.id()) && w.pm[v.paths.id()].wf()
    &&& coh(w, v.access_model, w.em[v.managed.id()], w.pm[v.paths.id()], v.revision@)
}
#[verifier::external_body]
fn vx_iter<K: VxKey, V>(m: &RbMap<K, V>) -> (r: VxIt<(&K, &V)>)
    ensures r.pos() == 0, forall|i: int| 0 <= i < r.all().len() ==> m@.dom().contains((#[trigger] r.all()[i]).0.key()) && m@[r.all()[i].0.key()] == *r.all()[i].1,
        forall|k: K::K| #[trigger] m@.dom().contains(k) ==> exists|i: int| 0 <= i < r.all().len() && (#[trigger] r.all()[i]).0.key() == k,
        forall|i: int, j: int| 0 <= i < j < r.all().len() ==> (#[trigger] r.all()[i]).0.key() != (#[trigger] r.all()[j]).0.key() { unimplemented!() }
impl EntryMap {
//@fn crates/tinymist-vfs/src/lib.rs EntryMap::detach C30
//@world Tracked(w): Tracked<&mut World>
//@ret r
    requires sound(*old(w)), exists|i: int| #[trigger] old(w).em.dom().contains(i) && old(w).em[i] == *self
    ensures only_fresh(*old(w), *final(w)), own(*final(w), r), sep_self(r), apart(*final(w), r), sound(*final(w)),
        forall|f: FileId| #[trigger] r.entries@.dom().contains(f) <==> self.entries@.dom().contains(f),
        forall|f: FileId| #[trigger] r.entries@.dom().contains(f) ==> r.entries@[f].changed_at == self.entries@[f].changed_at
            && (old(w).bc[self.entries@[f].bytes.id()] is Some ==> r.entries@[f] == self.entries@[f]) && (old(w).bc[self.entries@[f].bytes.id()] is None ==> empty_cells(*final(w), r.entries@[f])),
//@entry
    broadcast use vx_skip0;
//@loop 0 for
    invariant 0 <= vx_it0.pos() <= vx_it0.all().len(), only_fresh(*old(w), *w), sound(*old(w)), own(*old(w), *self), sep_self(*self),
        own(*w, EntryMap { entries }), sep_self(EntryMap { entries }),
        forall|f: FileId| #[trigger] entries@.dom().contains(f) <==> self.entries@.dom().contains(f),
        forall|i: int| 0 <= i < vx_it0.all().len() ==> self.entries@.dom().contains(*(#[trigger] vx_it0.all()[i]).0) && self.entries@[*vx_it0.all()[i].0] == *vx_it0.all()[i].1,
        forall|i: int, j: int| 0 <= i < j < vx_it0.all().len() ==> *(#[trigger] vx_it0.all()[i]).0 != *(#[trigger] vx_it0.all()[j]).0,
        forall|f: FileId| #[trigger] entries@.dom().contains(f) ==> entries@[f].changed_at == self.entries@[f].changed_at && (entries@[f] == self.entries@[f] || (old(w).bc[self.entries@[f].bytes.id()] is None && blank(*old(w), *w, entries@[f]))),
        forall|i: int| 0 <= i < vx_it0.pos() && old(w).bc[(#[trigger] vx_it0.all()[i]).1.bytes.id()] is None ==> blank(*old(w), *w, entries@[*vx_it0.all()[i].0]),
        forall|f: FileId| #[trigger] self.entries@.dom().contains(f) ==> exists|i: int| 0 <= i < vx_it0.all().len() && *(#[trigger] vx_it0.all()[i]).0 == f,
    ensures vx_it0.pos() == vx_it0.all().len()
    decreases vx_it0.all().len() - vx_it0.pos()
//@loopstart 0
    let ghost vx_e0 = EntryMap { entries };
//@loopend 0
    proof {
        let e1 = EntryMap { entries };
        assert forall|f: FileId, g: FileId| #![trigger e1.entries@.dom().contains(f), e1.entries@.dom().contains(g)] e1.entries@.dom().contains(f) && e1.entries@.dom().contains(g) && touch(e1.entries@[f], e1.entries@[g]) implies f == g by {
            assert(vx_e0.entries@.dom().contains(f)); assert(vx_e0.entries@.dom().contains(g));
        }
    }
//@end
}

/// what reading a file does to the heap: cells of this view are filled, with what is then there
spec fn stepped(w0: World, w1: World, em: int, pm: int) -> bool {
    &&& w0.em.dom().contains(em) && w1.em.dom() =~= w0.em.dom() && w1.pm.dom() =~= w0.pm.dom()
    &&& forall|i: int| i != em && #[trigger] w0.em.dom().contains(i) ==> w1.em[i] == w0.em[i]
    &&& forall|i: int| i != pm && #[trigger] w0.pm.dom().contains(i) ==> w1.pm[i] == w0.pm[i]
    &&& forall|f: FileId| #[trigger] w0.em[em].entries@.dom().contains(f) ==> w1.em[em].entries@.dom().contains(f) && w1.em[em].entries@[f] == w0.em[em].entries@[f]
    &&& forall|f: FileId| #[trigger] w1.em[em].entries@.dom().contains(f) && !w0.em[em].entries@.dom().contains(f) ==> !w0.bc.dom().contains(w1.em[em].entries@[f].bytes.id()) && !w0.sc.dom().contains(w1.em[em].entries@[f].source.id())
    &&& forall|i: int| #[trigger] w0.bc.dom().contains(i) ==> w1.bc.dom().contains(i) && (w1.bc[i] == w0.bc[i] || (w0.bc[i] is None && exists|f: FileId| #[trigger] w0.em[em].entries@.dom().contains(f) && w0.em[em].entries@[f].bytes.id() == i))
    &&& forall|i: int| #[trigger] w0.sc.dom().contains(i) ==> w1.sc.dom().contains(i) && (w1.sc[i] == w0.sc[i] || (w0.sc[i] is None && exists|f: FileId| #[trigger] w0.em[em].entries@.dom().contains(f) && w0.em[em].entries@[f].source.id() == i))
}
/// the entry of a file, if it was looked at
spec fn entry_of(w: World, em: int, f: FileId) -> Option<VfsEntry> { if w.em[em].entries@.dom().contains(f) { Some(w.em[em].entries@[f]) } else { None } }
/// the content that was read for a file in a view
spec fn known(w: World, em: int, f: FileId) -> Option<BVal> { if w.em[em].entries@.dom().contains(f) { w.bc[w.em[em].entries@[f].bytes.id()] } else { None } }
spec fn known_src(w: World, em: int, f: FileId) -> Option<SVal> { if w.em[em].entries@.dom().contains(f) { w.sc[w.em[em].entries@[f].source.id()] } else { None } }
// ---- sources ----------------------------------------------------------------------------
impl VxDup for Source { type O = Source; spec fn same(&self, o: &Source) -> bool { *self == *o } }
impl VxDup for Option<Source> { type O = Option<Source>; spec fn same(&self, o: &Option<Source>) -> bool { *self == *o } }
trait VxNum { spec fn num(&self) -> int; }
impl VxNum for usize { spec fn num(&self) -> int { *self as int } }
impl VxNum for NonZeroUsize { spec fn num(&self) -> int { self@ } }
#[verifier::external_body]
fn vx_lt<T: VxNum>(a: &T, b: &T) -> (r: bool) ensures r == (a.num() < b.num()) { unimplemented!() }
/// std's starts_with
#[verifier::external_body]
fn vx_starts<const N: usize>(b: &[u8], t: &[u8; N]) -> (r: bool) ensures r == (b@.len() >= N && b@.take(N as int) == t@) { unimplemented!() }
#[verifier::external_body]
fn vx_from(b: &[u8], n: usize) -> (r: &[u8]) requires b@.len() >= n ensures r@ == b@.skip(n as int) { unimplemented!() }
/// std's from_utf8; typst turns its error into InvalidUtf8
#[verifier::external_body]
fn vx_utf8(b: &[u8]) -> (r: Result<&str, FileError>)
    ensures match utf8(b@) { None => r == Err::<&str, FileError>(FileError::InvalidUtf8), Some(t) => r is Ok && (r->Ok_0)@ == t } { unimplemented!() }
#[verifier::external_body]
fn vx_slice(b: &Bytes) -> (r: &[u8]) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body]
fn vx_text(t: &str) -> (r: String) ensures r@ == t@ { unimplemented!() }
impl Source {
    /// typst's
    #[verifier::external_body]
    fn new(f: FileId, t: String) -> (r: Source) ensures r.fid() == f, r.text() == t@ { unimplemented!() }
    #[verifier::external_body]
    fn replace(&mut self, t: &str) ensures final(self).fid() == old(self).fid(), final(self).text() == t@ { unimplemented!() }
}
spec fn no_shard(s: SourceIdShard) -> bool { s.sources@ == Map::<Seq<u8>, SourceEntry>::empty() && s.recent_source is None && s.last_accessed_rev == 0 }
impl DashMap {
    /// the entry of a shared map, or a default one put in
    #[verifier::external_body]
    fn vx_shard(&self, f: FileId, Tracked(w): Tracked<&mut World>) -> (r: &mut SourceIdShard)
        ensures old(w).cache.dom().contains(f) ==> *r == old(w).cache[f], !old(w).cache.dom().contains(f) ==> no_shard(*r),
            final(w).cache == old(w).cache.insert(f, *final(r)), final(w).pm == old(w).pm, final(w).em == old(w).em, final(w).bc == old(w).bc, final(w).sc == old(w).sc { unimplemented!() }
}
impl<'a, V> Entry<'a, Bytes, V> {
    #[verifier::external_body]
    fn vx_or_insert(self, v: V) -> (r: &'a mut V)
        ensures match self {
            Entry::Occupied(o) => *r == o.m@[o.k.key()] && (*final(o.m))@ == o.m@.insert(o.k.key(), *final(r)),
            Entry::Vacant(o) => *r == v && (*final(o.m))@ == o.m@.insert(o.k.key(), *final(r)),
        } { unimplemented!() }
}
//@fn crates/tinymist-vfs/src/lib.rs from_utf8_or_bom C30
//@option byte_str
//@rw expr $x.starts_with($y) => vx_starts($x, $y)
//@rw expr std::str::from_utf8($x) => vx_utf8($x)
//@rw expr &$x[$n..] => vx_from($x, $n)
//@ret r
    ensures match decode(buf@) { None => r == Err::<&str, FileError>(FileError::InvalidUtf8), Some(t) => r is Ok && (r->Ok_0)@ == t }
//@entry
    proof { assert([0xefu8, 0xbbu8, 0xbfu8]@ =~= bom()); }
//@end
impl<M: PathAccessModel> Vfs<M> {
//@fn crates/tinymist-vfs/src/lib.rs Vfs::read_content C30
//@world Tracked(w): Tracked<&mut World>
//@ret r
    requires sound(*old(w)), fits(*old(w), *self), old(w).em[self.managed.id()].entries@.dom().contains(fid), old(w).em[self.managed.id()].entries@[fid].bytes == *bytes
    ensures sound(*final(w)), fits(*final(w), *self), stepped(*old(w), *final(w), self.managed.id(), self.paths.id()),
        final(w).em == old(w).em, final(w).sc == old(w).sc, final(w).cache == old(w).cache,
        known(*final(w), self.managed.id(), fid) matches Some(v) && *r == v.2,
        known(*old(w), self.managed.id(), fid) is Some ==> *final(w) == *old(w),
//@end
//@fn crates/tinymist-vfs/src/lib.rs Vfs::read C30
//@world Tracked(w): Tracked<&mut World>
//@ret r
    requires sound(*old(w)), fits(*old(w), *self)
    ensures sound(*final(w)), fits(*final(w), *self), stepped(*old(w), *final(w), self.managed.id(), self.paths.id()),
        known(*final(w), self.managed.id(), fid) matches Some(v) && r == v.2,
        known(*old(w), self.managed.id(), fid) matches Some(v) ==> r == v.2,
//@end
//@fn crates/tinymist-vfs/src/lib.rs Vfs::source C30
//@rw expr Clone::clone($x) => vx_dup_($x)
//@rw expr from_utf8_or_bom($x) => from_utf8_or_bom(vx_slice($x))
//@rw expr $x.to_owned() => vx_text($x)
//@rw expr $m.entry($k).or_insert_with(|| $v) => $m.entry($k).vx_or_insert($v)
//@rw expr $x < $y => vx_lt(&$x, &$y)
//@world Tracked(w): Tracked<&mut World>
//@ret r
    requires sound(*old(w)), fits(*old(w), *self)
    ensures sound(*final(w)), fits(*final(w), *self), stepped(*old(w), *final(w), self.managed.id(), self.paths.id()),
        known(*final(w), self.managed.id(), file_id) matches Some(v) && good(file_id, v.2, r),
        known(*old(w), self.managed.id(), file_id) matches Some(v) ==> known(*final(w), self.managed.id(), file_id) == Some(v),
//@end
//@fn crates/tinymist-vfs/src/lib.rs Vfs::evict C30
//@option maps_are_options
//@rw expr $m.remove_mut($x) => $m.remove_mut(&$x)
//@rw expr $x.unwrap_or_default() => vx_or0($x)
//@world Tracked(w): Tracked<&mut World>
    requires sound(*old(w)), fits(*old(w), *old(self)), old(self).revision@ + threshold <= usize::MAX
    ensures sound(*final(w)), fits(*final(w), *final(self)), *final(self) == *old(self), final(w).bc == old(w).bc, final(w).sc == old(w).sc, final(w).pm == old(w).pm, final(w).cache == old(w).cache,
        final(w).em.dom() =~= old(w).em.dom(), forall|i: int| i != old(self).managed.id() && #[trigger] old(w).em.dom().contains(i) ==> final(w).em[i] == old(w).em[i],
        forall|f: FileId| (#[trigger] known(*final(w), old(self).managed.id(), f) is Some ==> known(*final(w), old(self).managed.id(), f) == known(*old(w), old(self).managed.id(), f)),
        forall|f: FileId| (#[trigger] known(*old(w), old(self).managed.id(), f) matches Some(v) ==> v.1 + threshold >= old(self).revision@ ==> known(*final(w), old(self).managed.id(), f) == Some(v)),
//@entry
    broadcast use vx_skip0;
    let ghost vx_m0 = w.em[self.managed.id()];
//@loop 0 for
    invariant 0 <= vx_it0.pos() <= vx_it0.all().len(), vx_m0 == old(w).em[old(self).managed.id()], sound(*old(w)), fits(*old(w), *old(self)), rev == old(self).revision@, old(self).revision@ + threshold <= usize::MAX, *self == *old(self),
        w.bc == old(w).bc, w.sc == old(w).sc, w.pm == old(w).pm, w.cache == old(w).cache, w.em == old(w).em.insert(self.managed.id(), *final(m)),
        forall|i: int| 0 <= i < vx_it0.all().len() ==> vx_m0.entries@.dom().contains((#[trigger] vx_it0.all()[i]).0) && vx_m0.entries@[vx_it0.all()[i].0] == vx_it0.all()[i].1,
        forall|f: FileId| #[trigger] m.entries@.dom().contains(f) ==> vx_m0.entries@.dom().contains(f) && m.entries@[f] == vx_m0.entries@[f],
        forall|f: FileId| #[trigger] vx_m0.entries@.dom().contains(f) && !m.entries@.dom().contains(f) ==> (w.bc[vx_m0.entries@[f].bytes.id()] matches Some(v) ==> v.1 + threshold < rev)
    ensures vx_it0.pos() == vx_it0.all().len()
    decreases vx_it0.all().len() - vx_it0.pos()
//@end
//@fn crates/tinymist-vfs/src/lib.rs Vfs::revision C30
//@ret r
    ensures r == self.revision
//@end
//@fn crates/tinymist-vfs/src/lib.rs Vfs::snapshot C30
//@ret r
    ensures r.managed == self.managed, r.paths == self.paths, r.revision == self.revision, r.access_model == self.access_model
//@end
//@fn crates/tinymist-vfs/src/lib.rs Vfs::fork C30
//@world Tracked(w): Tracked<&mut World>
//@ret r
    requires sound(*old(w))
    ensures sound(*final(w)), fits(*final(w), r), grown(*old(w), *final(w)), r.access_model == self.access_model, !old(w).em.dom().contains(r.managed.id()), !old(w).pm.dom().contains(r.paths.id())
//@end
//@fn crates/tinymist-vfs/src/lib.rs Vfs::new C30
//@world Tracked(w): Tracked<&mut World>
//@ret r
    requires sound(*old(w))
    ensures sound(*final(w)), fits(*final(w), r), grown(*old(w), *final(w)), !old(w).em.dom().contains(r.managed.id()), !old(w).pm.dom().contains(r.paths.id()),
        r.access_model.files@.dom() =~= Set::empty(), r.access_model.inner.inner.files@.dom() =~= Set::empty(), r.access_model.inner.inner.inner.files@.dom() =~= Set::empty(),
//@end
//@fn crates/tinymist-vfs/src/lib.rs Vfs::is_clean_compile C30
//@world Tracked(w): Tracked<&mut World>
//@ret r
    requires old(w).em.dom().contains(self.managed.id())
    ensures r <==> forall|i: int| 0 <= i < file_ids@.len() ==> (entry_of(*old(w), self.managed.id(), #[trigger] file_ids@[i]) matches Some(e) && e.changed_at <= rev)
//@loop 0 for
    invariant 0 <= vx_it0.pos() <= vx_it0.all().len(), vx_it0.all().len() == file_ids@.len(), forall|i: int| 0 <= i < file_ids@.len() ==> *(#[trigger] vx_it0.all()[i]) == file_ids@[i],
        m.entries@ =~= old(w).em[self.managed.id()].entries@,
        forall|i: int| 0 <= i < vx_it0.pos() ==> (entry_of(*old(w), self.managed.id(), #[trigger] file_ids@[i]) matches Some(e) && e.changed_at <= rev)
    ensures vx_it0.pos() == vx_it0.all().len()
    decreases vx_it0.all().len() - vx_it0.pos()
//@loopstart 0
    proof { if vx_it0.pos() < vx_it0.all().len() { assert(*vx_it0.all()[vx_it0.pos()] == file_ids@[vx_it0.pos()]); } }
//@end
//@fn crates/tinymist-vfs/src/lib.rs Vfs::revise C30
//@world Tracked(w): Tracked<&mut World>
//@ret r
    requires sound(*old(w)), fits(*old(w), *old(self)), old(self).revision@ < usize::MAX
    ensures grown(*old(w), *final(w)), sound(*final(w)), rv_ok(*final(w), r), settled(*final(w), r), !r.view_changed,
        *r.inner == *old(self), *final(r.inner) == *final(self), r.paths == old(w).pm[old(self).paths.id()],
        forall|f: FileId| #[trigger] kept_of(*final(w), r.managed, f) == known(*old(w), old(self).managed.id(), f)
//@end
}
spec fn kept_of(w: World, a: EntryMap, f: FileId) -> Option<BVal> { if a.entries@.dom().contains(f) { w.bc[a.entries@[f].bytes.id()] } else { None } }
/// a revision under way: its entries are its own, or shared with what is read already
spec fn rv_ok<M: PathAccessModel>(w: World, v: RevisingVfs<M>) -> bool {
    &&& w.em.dom().contains(v.inner.managed.id()) && w.pm.dom().contains(v.inner.paths.id())
    &&& own(w, v.managed) && sep_self(v.managed) && apart(w, v.managed) && v.paths.wf()
    &&& v.goal_revision@ == v.inner.revision@ + 1
}
/// what the revision kept is what the layers give now; unless marked as changed, so is what the view had
spec fn settled<M: PathAccessModel>(w: World, v: RevisingVfs<M>) -> bool {
    &&& routed(v.inner.access_model, v.paths)
    &&& coh(w, v.inner.access_model, v.managed, v.paths, v.goal_revision@)
    &&& !v.view_changed ==> fits(w, *v.inner)
}

spec fn same_at(a: EntryMap, b: EntryMap, f: FileId) -> bool {
    (a.entries@.dom().contains(f) <==> b.entries@.dom().contains(f)) && (b.entries@.dom().contains(f) ==> a.entries@[f] == b.entries@[f])
}
/// nothing is known of the file any more
spec fn wiped(w: World, a: EntryMap, f: FileId, rev: int) -> bool { a.entries@.dom().contains(f) && empty_cells(w, a.entries@[f]) && a.entries@[f].changed_at == rev }
/// all but the layers
spec fn same_vfs<M: PathAccessModel>(a: Vfs<M>, b: Vfs<M>) -> bool { a.source_cache == b.source_cache && a.managed == b.managed && a.paths == b.paths && a.revision == b.revision }
proof fn wiped_stays(w0: World, w1: World, m0: EntryMap, m1: EntryMap, f: FileId, rev: int)
    requires wiped(w0, m0, f, rev), grown(w0, w1), same_at(m1, m0, f)
    ensures wiped(w1, m1, f, rev)
{ }
/// the file was read from one of these
spec fn hit_rm(p: PathMap, rm: Seq<Path>, f: FileId) -> bool { exists|j: int| 0 <= j < rm.len() && at_path(p, pk((#[trigger] rm[j])@)).contains(f) }
spec fn hit_ins(p: PathMap, ins: Seq<(Path, FileSnapshot)>, f: FileId) -> bool { exists|j: int| 0 <= j < ins.len() && at_path(p, pk((#[trigger] ins[j]).0@)).contains(f) }
proof fn hit_rm_step(p: PathMap, rm: Seq<Path>, n: int, f: FileId) requires 0 <= n < rm.len()
    ensures hit_rm(p, rm.take(n + 1), f) <==> (hit_rm(p, rm.take(n), f) || at_path(p, pk(rm[n]@)).contains(f))
{
    let a = rm.take(n + 1); let b = rm.take(n);
    if hit_rm(p, b, f) { let j = choose|j: int| 0 <= j < b.len() && at_path(p, pk((#[trigger] b[j])@)).contains(f); assert(a[j] == b[j]); }
    if at_path(p, pk(rm[n]@)).contains(f) { assert(a[n] == rm[n]); }
    if hit_rm(p, a, f) { let j = choose|j: int| 0 <= j < a.len() && at_path(p, pk((#[trigger] a[j])@)).contains(f); if j < n { assert(b[j] == a[j]); } }
}
proof fn hit_ins_step(p: PathMap, ins: Seq<(Path, FileSnapshot)>, n: int, f: FileId) requires 0 <= n < ins.len()
    ensures hit_ins(p, ins.take(n + 1), f) <==> (hit_ins(p, ins.take(n), f) || at_path(p, pk(ins[n].0@)).contains(f))
{
    let a = ins.take(n + 1); let b = ins.take(n);
    if hit_ins(p, b, f) { let j = choose|j: int| 0 <= j < b.len() && at_path(p, pk((#[trigger] b[j]).0@)).contains(f); assert(a[j] == b[j]); }
    if at_path(p, pk(ins[n].0@)).contains(f) { assert(a[n] == ins[n]); }
    if hit_ins(p, a, f) { let j = choose|j: int| 0 <= j < a.len() && at_path(p, pk((#[trigger] a[j]).0@)).contains(f); if j < n { assert(b[j] == a[j]); } }
}
/// what the watcher does not speak of stays
proof fn after_same(m: Map<PKey, FileSnapshot>, rm: Seq<Path>, ins: Seq<(Path, FileSnapshot)>, p: PKey)
    requires forall|j: int| 0 <= j < rm.len() ==> pk((#[trigger] rm[j])@) != p, forall|j: int| 0 <= j < ins.len() ==> pk((#[trigger] ins[j]).0@) != p
    ensures after(m, rm, ins, p) == at(m, p)
    decreases ins.len()
{ if ins.len() > 0 { let i2 = ins.drop_last(); assert forall|j: int| 0 <= j < i2.len() implies pk((#[trigger] i2[j]).0@) != p by { assert(i2[j] == ins[j]); } after_same(m, rm, i2, p); } }
/// the layers above the watcher's, and below
spec fn same_layers<M: PathAccessModel>(a: VfsAccessModel<M>, b: VfsAccessModel<M>) -> bool {
    a.files@ =~= b.files@ && a.inner.inner.files@ =~= b.inner.inner.files@ && a.inner.resolver == b.inner.resolver && a.inner.inner.inner.inner == b.inner.inner.inner.inner
}
spec fn hit(p: PathMap, c: FileChangeSet, f: FileId) -> bool { hit_rm(p, c.removes@, f) || hit_ins(p, c.inserts@, f) }
/// the file was read from a shadowed path
spec fn shad(m: Map<PKey, FileSnapshot>, p: PathMap, f: FileId) -> bool { exists|q: PKey| #[trigger] m.dom().contains(q) && at_path(p, q).contains(f) }
proof fn shad_all(m: Map<PKey, FileSnapshot>, p: PathMap, v: Seq<Path>, f: FileId)
    requires forall|i: int| 0 <= i < v.len() ==> m.dom().contains((#[trigger] v[i]).key()), forall|k: PKey| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).key() == k
    ensures hit_rm(p, v, f) <==> shad(m, p, f)
{
    if hit_rm(p, v, f) { let j = choose|j: int| 0 <= j < v.len() && at_path(p, pk((#[trigger] v[j])@)).contains(f); assert(m.dom().contains(v[j].key())); }
    if shad(m, p, f) { let q = choose|q: PKey| #[trigger] m.dom().contains(q) && at_path(p, q).contains(f); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).key() == q; assert(at_path(p, pk(v[i]@)).contains(f)); }
}
#[verifier::external_body]
struct UpstreamUpdateEvent { x: u8 }
//@type crates/tinymist-vfs/src/notify.rs FilesystemEvent
spec fn changes(e: FilesystemEvent) -> FileChangeSet { match e { FilesystemEvent::Update(c) => c, FilesystemEvent::UpstreamUpdate { changeset, upstream_event } => changeset } }
impl FilesystemEvent {
//@fn crates/tinymist-vfs/src/notify.rs FilesystemEvent::split C30
//@ret r
    ensures r.0 == changes(self)
//@end
}
impl<M: PathAccessModel> RevisingVfs<'_, M> {
//@fn crates/tinymist-vfs/src/lib.rs RevisingVfs::am C30
//@ret r
    ensures *r == old(self).inner.access_model, *final(r) == final(self).inner.access_model, same_vfs(*final(self).inner, *old(self).inner),
        final(self).managed == old(self).managed, final(self).paths == old(self).paths, final(self).goal_revision == old(self).goal_revision, final(self).view_changed == old(self).view_changed,
        *final(final(self).inner) == *final(old(self).inner)
//@end
//@fn crates/tinymist-vfs/src/lib.rs RevisingVfs::invalidate_file_id C30
//@world Tracked(w): Tracked<&mut World>
    requires sound(*old(w)), rv_ok(*old(w), *old(self))
    ensures sound(*final(w)), rv_ok(*final(w), *final(self)), only_fresh(*old(w), *final(w)), final(self).view_changed,
        *final(self).inner == *old(self).inner, final(self).paths == old(self).paths, final(self).goal_revision == old(self).goal_revision, *final(final(self).inner) == *final(old(self).inner),
        wiped(*final(w), final(self).managed, file_id, old(self).goal_revision@), forall|f: FileId| #![trigger same_at(final(self).managed, old(self).managed, f)] #![trigger final(self).managed.entries@.dom().contains(f)] #![trigger old(self).managed.entries@.dom().contains(f)] f != file_id ==> same_at(final(self).managed, old(self).managed, f)
//@end
//@fn crates/tinymist-vfs/src/lib.rs RevisingVfs::invalidate_path C30
//@world Tracked(w): Tracked<&mut World>
    requires sound(*old(w)), rv_ok(*old(w), *old(self))
    ensures sound(*final(w)), rv_ok(*final(w), *final(self)), only_fresh(*old(w), *final(w)), old(self).view_changed ==> final(self).view_changed,
        *final(self).inner == *old(self).inner, final(self).paths == old(self).paths, final(self).goal_revision == old(self).goal_revision, *final(final(self).inner) == *final(old(self).inner),
        at_path(old(self).paths, pk(path@)).len() > 0 ==> final(self).view_changed,
        forall|f: FileId| #![trigger wiped(*final(w), final(self).managed, f, old(self).goal_revision@)] #![trigger final(self).managed.entries@.dom().contains(f)] at_path(old(self).paths, pk(path@)).contains(f) ==> wiped(*final(w), final(self).managed, f, old(self).goal_revision@),
        forall|f: FileId| #![trigger same_at(final(self).managed, old(self).managed, f)] #![trigger final(self).managed.entries@.dom().contains(f)] #![trigger old(self).managed.entries@.dom().contains(f)] !at_path(old(self).paths, pk(path@)).contains(f) ==> same_at(final(self).managed, old(self).managed, f)
//@loop 0 for
    invariant 0 <= vx_it0.pos() <= vx_it0.all().len(), vx_it0.all() == at_path(old(self).paths, pk(path@)), old(self).view_changed || vx_it0.pos() > 0 ==> self.view_changed,
        sound(*w), rv_ok(*w, *self), only_fresh(*old(w), *w), *self.inner == *old(self).inner, self.paths == old(self).paths, self.goal_revision == old(self).goal_revision, *final(self.inner) == *final(old(self).inner),
        forall|i: int| 0 <= i < vx_it0.pos() ==> wiped(*w, self.managed, #[trigger] vx_it0.all()[i], old(self).goal_revision@),
        forall|f: FileId| #![trigger same_at(self.managed, old(self).managed, f)] #![trigger self.managed.entries@.dom().contains(f)] #![trigger old(self).managed.entries@.dom().contains(f)] !at_path(old(self).paths, pk(path@)).contains(f) ==> same_at(self.managed, old(self).managed, f)
    ensures vx_it0.pos() == vx_it0.all().len()
    decreases vx_it0.all().len() - vx_it0.pos()
//@end
//@fn crates/tinymist-vfs/src/lib.rs RevisingVfs::map_shadow C30
//@world Tracked(w): Tracked<&mut World>
//@ret r
    requires sound(*old(w)), rv_ok(*old(w), *old(self)), settled(*old(w), *old(self))
    ensures sound(*final(w)), rv_ok(*final(w), *final(self)), settled(*final(w), *final(self)), final(self).view_changed, only_fresh(*old(w), *final(w)),
        same_vfs(*final(self).inner, *old(self).inner), final(self).goal_revision == old(self).goal_revision, *final(final(self).inner) == *final(old(self).inner),
        r is Ok,
        layers(final(self).inner.access_model, old(self).inner.access_model, old(self).inner.access_model.files@, old(self).inner.access_model.inner.inner.files@.insert(pk(path@), snap), old(self).inner.access_model.inner.inner.inner.files@),
        final(self).paths == old(self).paths,
        forall|f: FileId| at_path(old(self).paths, pk(path@)).contains(f) ==> #[trigger] wiped(*final(w), final(self).managed, f, old(self).goal_revision@),
        forall|f: FileId| !at_path(old(self).paths, pk(path@)).contains(f) ==> #[trigger] same_at(final(self).managed, old(self).managed, f)
//@end
//@fn crates/tinymist-vfs/src/lib.rs RevisingVfs::unmap_shadow C30
//@world Tracked(w): Tracked<&mut World>
//@ret r
    requires sound(*old(w)), rv_ok(*old(w), *old(self)), settled(*old(w), *old(self))
    ensures sound(*final(w)), rv_ok(*final(w), *final(self)), settled(*final(w), *final(self)), final(self).view_changed, only_fresh(*old(w), *final(w)),
        same_vfs(*final(self).inner, *old(self).inner), final(self).goal_revision == old(self).goal_revision, *final(final(self).inner) == *final(old(self).inner),
        r is Ok,
        layers(final(self).inner.access_model, old(self).inner.access_model, old(self).inner.access_model.files@, old(self).inner.access_model.inner.inner.files@.remove(pk(path@)), old(self).inner.access_model.inner.inner.inner.files@),
        final(self).paths == old(self).paths,
        forall|f: FileId| at_path(old(self).paths, pk(path@)).contains(f) ==> #[trigger] wiped(*final(w), final(self).managed, f, old(self).goal_revision@),
        forall|f: FileId| !at_path(old(self).paths, pk(path@)).contains(f) ==> #[trigger] same_at(final(self).managed, old(self).managed, f)
//@end
//@fn crates/tinymist-vfs/src/lib.rs RevisingVfs::map_shadow_by_id C30
//@world Tracked(w): Tracked<&mut World>
//@ret r
    requires sound(*old(w)), rv_ok(*old(w), *old(self)), settled(*old(w), *old(self))
    ensures sound(*final(w)), rv_ok(*final(w), *final(self)), settled(*final(w), *final(self)), final(self).view_changed, only_fresh(*old(w), *final(w)),
        same_vfs(*final(self).inner, *old(self).inner), final(self).goal_revision == old(self).goal_revision, *final(final(self).inner) == *final(old(self).inner),
        r is Ok,
        layers(final(self).inner.access_model, old(self).inner.access_model, old(self).inner.access_model.files@.insert(file_id, snap), old(self).inner.access_model.inner.inner.files@, old(self).inner.access_model.inner.inner.inner.files@),
        final(self).paths == old(self).paths, wiped(*final(w), final(self).managed, file_id, old(self).goal_revision@),
        forall|f: FileId| f != file_id ==> #[trigger] same_at(final(self).managed, old(self).managed, f)
//@end
//@fn crates/tinymist-vfs/src/lib.rs RevisingVfs::remove_shadow_by_id C30
//@world Tracked(w): Tracked<&mut World>
    requires sound(*old(w)), rv_ok(*old(w), *old(self)), settled(*old(w), *old(self))
    ensures sound(*final(w)), rv_ok(*final(w), *final(self)), settled(*final(w), *final(self)), final(self).view_changed, only_fresh(*old(w), *final(w)),
        same_vfs(*final(self).inner, *old(self).inner), final(self).goal_revision == old(self).goal_revision, *final(final(self).inner) == *final(old(self).inner),
        layers(final(self).inner.access_model, old(self).inner.access_model, old(self).inner.access_model.files@.remove(file_id), old(self).inner.access_model.inner.inner.files@, old(self).inner.access_model.inner.inner.inner.files@),
        final(self).paths == old(self).paths, wiped(*final(w), final(self).managed, file_id, old(self).goal_revision@),
        forall|f: FileId| f != file_id ==> #[trigger] same_at(final(self).managed, old(self).managed, f)
//@end
//@fn crates/tinymist-vfs/src/lib.rs RevisingVfs::reset_shadow C30
//@world Tracked(w): Tracked<&mut World>
    requires sound(*old(w)), rv_ok(*old(w), *old(self)), settled(*old(w), *old(self))
    ensures sound(*final(w)), rv_ok(*final(w), *final(self)), settled(*final(w), *final(self)), final(self).view_changed, only_fresh(*old(w), *final(w)),
        same_vfs(*final(self).inner, *old(self).inner), final(self).goal_revision == old(self).goal_revision, *final(final(self).inner) == *final(old(self).inner),
        layers(final(self).inner.access_model, old(self).inner.access_model, Map::empty(), Map::empty(), old(self).inner.access_model.inner.inner.inner.files@), final(self).paths == old(self).paths,
        forall|f: FileId| old(self).inner.access_model.files@.dom().contains(f) || shad(old(self).inner.access_model.inner.inner.files@, old(self).paths, f) ==> #[trigger] wiped(*final(w), final(self).managed, f, old(self).goal_revision@),
        forall|f: FileId| !(old(self).inner.access_model.files@.dom().contains(f) || shad(old(self).inner.access_model.inner.inner.files@, old(self).paths, f)) ==> #[trigger] same_at(final(self).managed, old(self).managed, f)
//@loop 0 for
    invariant 0 <= vx_it0.pos() <= vx_it0.all().len(), sound(*w), rv_ok(*w, *self), only_fresh(*old(w), *w), *self.inner == *old(self).inner, self.paths == old(self).paths, self.goal_revision == old(self).goal_revision, *final(self.inner) == *final(old(self).inner), self.view_changed,
        forall|i: int| 0 <= i < vx_it0.all().len() ==> old(self).inner.access_model.inner.inner.files@.dom().contains((#[trigger] vx_it0.all()[i]).key()), forall|k: PKey| #[trigger] old(self).inner.access_model.inner.inner.files@.dom().contains(k) ==> exists|i: int| 0 <= i < vx_it0.all().len() && (#[trigger] vx_it0.all()[i]).key() == k,
        forall|f: FileId| #![trigger wiped(*w, self.managed, f, old(self).goal_revision@)] #![trigger self.managed.entries@.dom().contains(f)] hit_rm(old(self).paths, vx_it0.all().take(vx_it0.pos()), f) ==> wiped(*w, self.managed, f, old(self).goal_revision@),
        forall|f: FileId| #![trigger same_at(self.managed, old(self).managed, f)] #![trigger self.managed.entries@.dom().contains(f)] #![trigger old(self).managed.entries@.dom().contains(f)] !hit_rm(old(self).paths, vx_it0.all().take(vx_it0.pos()), f) ==> same_at(self.managed, old(self).managed, f)
    ensures forall|f: FileId| #![trigger wiped(*w, self.managed, f, old(self).goal_revision@)] #![trigger self.managed.entries@.dom().contains(f)] shad(old(self).inner.access_model.inner.inner.files@, old(self).paths, f) ==> wiped(*w, self.managed, f, old(self).goal_revision@), forall|f: FileId| #![trigger same_at(self.managed, old(self).managed, f)] #![trigger self.managed.entries@.dom().contains(f)] #![trigger old(self).managed.entries@.dom().contains(f)] !shad(old(self).inner.access_model.inner.inner.files@, old(self).paths, f) ==> same_at(self.managed, old(self).managed, f)
    decreases vx_it0.all().len() - vx_it0.pos()
//@loopstart 0
    let ghost vx_m0 = self.managed; let ghost vx_w0 = *w;
    proof { if vx_it0.pos() < vx_it0.all().len() { assert forall|f: FileId| #[trigger] hit_rm(old(self).paths, vx_it0.all().take(vx_it0.pos() + 1), f) <==> (hit_rm(old(self).paths, vx_it0.all().take(vx_it0.pos()), f) || at_path(old(self).paths, pk(vx_it0.all()[vx_it0.pos()]@)).contains(f)) by { hit_rm_step(old(self).paths, vx_it0.all(), vx_it0.pos(), f); } }
        else { assert(vx_it0.all().take(vx_it0.pos()) =~= vx_it0.all()); assert forall|f: FileId| #[trigger] hit_rm(old(self).paths, vx_it0.all(), f) <==> shad(old(self).inner.access_model.inner.inner.files@, old(self).paths, f) by { shad_all(old(self).inner.access_model.inner.inner.files@, old(self).paths, vx_it0.all(), f); } } }
//@loopend 0
    proof {
        assert forall|f: FileId| #![trigger wiped(*w, self.managed, f, old(self).goal_revision@)] hit_rm(old(self).paths, vx_it0.all().take(vx_it0.pos()), f) implies wiped(*w, self.managed, f, old(self).goal_revision@) by {
            if at_path(old(self).paths, pk(vx_it0.all()[vx_it0.pos() - 1]@)).contains(f) { assert(wiped(*w, self.managed, f, old(self).goal_revision@)); } else { assert(hit_rm(old(self).paths, vx_it0.all().take(vx_it0.pos() - 1), f)); assert(wiped(vx_w0, vx_m0, f, old(self).goal_revision@)); assert(same_at(self.managed, vx_m0, f)); wiped_stays(vx_w0, *w, vx_m0, self.managed, f, old(self).goal_revision@); }
        }
    }
//@loop 1 for
    invariant 0 <= vx_it1.pos() <= vx_it1.all().len(), sound(*w), rv_ok(*w, *self), only_fresh(*old(w), *w), *self.inner == *old(self).inner, self.paths == old(self).paths, self.goal_revision == old(self).goal_revision, *final(self.inner) == *final(old(self).inner), self.view_changed,
        forall|i: int| 0 <= i < vx_it1.all().len() ==> old(self).inner.access_model.files@.dom().contains(#[trigger] vx_it1.all()[i]), forall|k: FileId| #[trigger] old(self).inner.access_model.files@.dom().contains(k) ==> vx_it1.all().contains(k),
        forall|f: FileId| #![trigger wiped(*w, self.managed, f, old(self).goal_revision@)] #![trigger self.managed.entries@.dom().contains(f)] shad(old(self).inner.access_model.inner.inner.files@, old(self).paths, f) || vx_it1.all().take(vx_it1.pos()).contains(f) ==> wiped(*w, self.managed, f, old(self).goal_revision@),
        forall|f: FileId| #![trigger same_at(self.managed, old(self).managed, f)] #![trigger self.managed.entries@.dom().contains(f)] #![trigger old(self).managed.entries@.dom().contains(f)] !(shad(old(self).inner.access_model.inner.inner.files@, old(self).paths, f) || vx_it1.all().take(vx_it1.pos()).contains(f)) ==> same_at(self.managed, old(self).managed, f)
    ensures forall|f: FileId| #![trigger wiped(*w, self.managed, f, old(self).goal_revision@)] #![trigger self.managed.entries@.dom().contains(f)] shad(old(self).inner.access_model.inner.inner.files@, old(self).paths, f) || old(self).inner.access_model.files@.dom().contains(f) ==> wiped(*w, self.managed, f, old(self).goal_revision@), forall|f: FileId| #![trigger same_at(self.managed, old(self).managed, f)] #![trigger self.managed.entries@.dom().contains(f)] #![trigger old(self).managed.entries@.dom().contains(f)] !(shad(old(self).inner.access_model.inner.inner.files@, old(self).paths, f) || old(self).inner.access_model.files@.dom().contains(f)) ==> same_at(self.managed, old(self).managed, f)
    decreases vx_it1.all().len() - vx_it1.pos()
//@loopstart 1
    let ghost vx_m0 = self.managed; let ghost vx_w0 = *w;
    proof { if vx_it1.pos() < vx_it1.all().len() { assert forall|f: FileId| #[trigger] vx_it1.all().take(vx_it1.pos() + 1).contains(f) <==> (vx_it1.all().take(vx_it1.pos()).contains(f) || f == vx_it1.all()[vx_it1.pos()]) by { vx_has_take(vx_it1.all(), vx_it1.pos(), f); } }
        else { assert(vx_it1.all().take(vx_it1.pos()) =~= vx_it1.all()); } }
//@loopend 1
    proof {
        assert forall|f: FileId| #![trigger wiped(*w, self.managed, f, old(self).goal_revision@)] shad(old(self).inner.access_model.inner.inner.files@, old(self).paths, f) || vx_it1.all().take(vx_it1.pos()).contains(f) implies wiped(*w, self.managed, f, old(self).goal_revision@) by {
            if f == vx_it1.all()[vx_it1.pos() - 1] { assert(wiped(*w, self.managed, f, old(self).goal_revision@)); } else { assert(shad(old(self).inner.access_model.inner.inner.files@, old(self).paths, f) || vx_it1.all().take(vx_it1.pos() - 1).contains(f)); assert(wiped(vx_w0, vx_m0, f, old(self).goal_revision@)); assert(same_at(self.managed, vx_m0, f)); wiped_stays(vx_w0, *w, vx_m0, self.managed, f, old(self).goal_revision@); }
        }
    }
//@end
//@fn crates/tinymist-vfs/src/lib.rs RevisingVfs::reset_cache C30
//@world Tracked(w): Tracked<&mut World>
    requires sound(*old(w)), rv_ok(*old(w), *old(self)), settled(*old(w), *old(self))
    ensures sound(*final(w)), rv_ok(*final(w), *final(self)), settled(*final(w), *final(self)), final(self).view_changed, only_fresh(*old(w), *final(w)),
        same_vfs(*final(self).inner, *old(self).inner), final(self).goal_revision == old(self).goal_revision, *final(final(self).inner) == *final(old(self).inner),
        layers(final(self).inner.access_model, old(self).inner.access_model, old(self).inner.access_model.files@, old(self).inner.access_model.inner.inner.files@, old(self).inner.access_model.inner.inner.inner.files@),
        final(self).managed.is_empty_(), final(self).paths.is_empty_()
//@end
//@fn crates/tinymist-vfs/src/lib.rs RevisingVfs::notify_fs_changes C30
//@world Tracked(w): Tracked<&mut World>
    requires sound(*old(w)), rv_ok(*old(w), *old(self)), settled(*old(w), *old(self))
    ensures sound(*final(w)), rv_ok(*final(w), *final(self)), settled(*final(w), *final(self)), final(self).view_changed, only_fresh(*old(w), *final(w)),
        same_vfs(*final(self).inner, *old(self).inner), final(self).goal_revision == old(self).goal_revision, *final(final(self).inner) == *final(old(self).inner),
        same_layers(final(self).inner.access_model, old(self).inner.access_model), final(self).paths == old(self).paths,
        forall|p: PKey| #[trigger] at(final(self).inner.access_model.inner.inner.inner.files@, p) == after(old(self).inner.access_model.inner.inner.inner.files@, event.removes@, event.inserts@, p),
        forall|f: FileId| hit(old(self).paths, event, f) ==> #[trigger] wiped(*final(w), final(self).managed, f, old(self).goal_revision@),
        forall|f: FileId| !hit(old(self).paths, event, f) ==> #[trigger] same_at(final(self).managed, old(self).managed, f)
//@entry
    broadcast use vx_skip0;
    proof { assert(event.removes@.take(event.removes@.len() as int) =~= event.removes@); assert(event.inserts@.take(event.inserts@.len() as int) =~= event.inserts@); }
//@at after self.am()
    proof {
        assert forall|f: FileId, q: PKey| #![trigger at_path(old(self).paths, q).contains(f)] at_path(old(self).paths, q).contains(f) && !hit(old(self).paths, event, f) implies
            at(self.inner.access_model.inner.inner.inner.files@, q) == at(old(self).inner.access_model.inner.inner.inner.files@, q) by { after_same(old(self).inner.access_model.inner.inner.inner.files@, event.removes@, event.inserts@, q); }
    }
//@loop 0 for
    invariant 0 <= vx_it0.pos() <= vx_it0.all().len(), vx_it0.all().len() == event.removes@.len(), forall|i: int| 0 <= i < event.removes@.len() ==> *(#[trigger] vx_it0.all()[i]) == event.removes@[i],
        sound(*w), rv_ok(*w, *self), only_fresh(*old(w), *w), *self.inner == *old(self).inner, self.paths == old(self).paths, self.goal_revision == old(self).goal_revision, *final(self.inner) == *final(old(self).inner), self.view_changed,
        forall|f: FileId| #![trigger wiped(*w, self.managed, f, old(self).goal_revision@)] #![trigger self.managed.entries@.dom().contains(f)] hit_rm(old(self).paths, event.removes@.take(vx_it0.pos()), f) ==> wiped(*w, self.managed, f, old(self).goal_revision@),
        forall|f: FileId| #![trigger same_at(self.managed, old(self).managed, f)] #![trigger self.managed.entries@.dom().contains(f)] #![trigger old(self).managed.entries@.dom().contains(f)] !hit_rm(old(self).paths, event.removes@.take(vx_it0.pos()), f) ==> same_at(self.managed, old(self).managed, f)
    ensures vx_it0.pos() == vx_it0.all().len()
    decreases vx_it0.all().len() - vx_it0.pos()
//@loopstart 0
    let ghost vx_m0 = self.managed; let ghost vx_w0 = *w;
    proof { if vx_it0.pos() < vx_it0.all().len() { assert(*vx_it0.all()[vx_it0.pos()] == event.removes@[vx_it0.pos()]); assert forall|f: FileId| #[trigger] hit_rm(old(self).paths, event.removes@.take(vx_it0.pos() + 1), f) <==> (hit_rm(old(self).paths, event.removes@.take(vx_it0.pos()), f) || at_path(old(self).paths, pk(event.removes@[vx_it0.pos()]@)).contains(f)) by { hit_rm_step(old(self).paths, event.removes@, vx_it0.pos(), f); } } }
//@loopend 0
    proof {
        assert forall|f: FileId| #![trigger wiped(*w, self.managed, f, old(self).goal_revision@)] hit_rm(old(self).paths, event.removes@.take(vx_it0.pos()), f) implies wiped(*w, self.managed, f, old(self).goal_revision@) by {
            if at_path(old(self).paths, pk(event.removes@[vx_it0.pos() - 1]@)).contains(f) { assert(wiped(*w, self.managed, f, old(self).goal_revision@)); } else { assert(hit_rm(old(self).paths, event.removes@.take(vx_it0.pos() - 1), f)); assert(wiped(vx_w0, vx_m0, f, old(self).goal_revision@)); assert(same_at(self.managed, vx_m0, f)); wiped_stays(vx_w0, *w, vx_m0, self.managed, f, old(self).goal_revision@); }
        }
    }
//@loop 1 for
    invariant 0 <= vx_it1.pos() <= vx_it1.all().len(), vx_it1.all().len() == event.inserts@.len(), forall|i: int| 0 <= i < event.inserts@.len() ==> *(#[trigger] vx_it1.all()[i]) == event.inserts@[i],
        sound(*w), rv_ok(*w, *self), only_fresh(*old(w), *w), *self.inner == *old(self).inner, self.paths == old(self).paths, self.goal_revision == old(self).goal_revision, *final(self.inner) == *final(old(self).inner), self.view_changed,
        forall|f: FileId| #![trigger wiped(*w, self.managed, f, old(self).goal_revision@)] #![trigger self.managed.entries@.dom().contains(f)] hit_rm(old(self).paths, event.removes@, f) || hit_ins(old(self).paths, event.inserts@.take(vx_it1.pos()), f) ==> wiped(*w, self.managed, f, old(self).goal_revision@),
        forall|f: FileId| #![trigger same_at(self.managed, old(self).managed, f)] #![trigger self.managed.entries@.dom().contains(f)] #![trigger old(self).managed.entries@.dom().contains(f)] !(hit_rm(old(self).paths, event.removes@, f) || hit_ins(old(self).paths, event.inserts@.take(vx_it1.pos()), f)) ==> same_at(self.managed, old(self).managed, f)
    ensures vx_it1.pos() == vx_it1.all().len()
    decreases vx_it1.all().len() - vx_it1.pos()
//@loopstart 1
    let ghost vx_m0 = self.managed; let ghost vx_w0 = *w;
    proof { if vx_it1.pos() < vx_it1.all().len() { assert(*vx_it1.all()[vx_it1.pos()] == event.inserts@[vx_it1.pos()]); assert forall|f: FileId| #[trigger] hit_ins(old(self).paths, event.inserts@.take(vx_it1.pos() + 1), f) <==> (hit_ins(old(self).paths, event.inserts@.take(vx_it1.pos()), f) || at_path(old(self).paths, pk(event.inserts@[vx_it1.pos()].0@)).contains(f)) by { hit_ins_step(old(self).paths, event.inserts@, vx_it1.pos(), f); } } }
//@loopend 1
    proof {
        assert forall|f: FileId| #![trigger wiped(*w, self.managed, f, old(self).goal_revision@)] hit_rm(old(self).paths, event.removes@, f) || hit_ins(old(self).paths, event.inserts@.take(vx_it1.pos()), f) implies wiped(*w, self.managed, f, old(self).goal_revision@) by {
            if at_path(old(self).paths, pk(event.inserts@[vx_it1.pos() - 1].0@)).contains(f) { assert(wiped(*w, self.managed, f, old(self).goal_revision@)); } else { assert(hit_rm(old(self).paths, event.removes@, f) || hit_ins(old(self).paths, event.inserts@.take(vx_it1.pos() - 1), f)); assert(wiped(vx_w0, vx_m0, f, old(self).goal_revision@)); assert(same_at(self.managed, vx_m0, f)); wiped_stays(vx_w0, *w, vx_m0, self.managed, f, old(self).goal_revision@); }
        }
    }
//@end
//@fn crates/tinymist-vfs/src/lib.rs RevisingVfs::notify_fs_event C30
//@world Tracked(w): Tracked<&mut World>
    requires sound(*old(w)), rv_ok(*old(w), *old(self)), settled(*old(w), *old(self))
    ensures sound(*final(w)), rv_ok(*final(w), *final(self)), settled(*final(w), *final(self)), final(self).view_changed, only_fresh(*old(w), *final(w)),
        same_vfs(*final(self).inner, *old(self).inner), final(self).goal_revision == old(self).goal_revision, *final(final(self).inner) == *final(old(self).inner),
        same_layers(final(self).inner.access_model, old(self).inner.access_model), final(self).paths == old(self).paths,
        forall|p: PKey| #[trigger] at(final(self).inner.access_model.inner.inner.inner.files@, p) == after(old(self).inner.access_model.inner.inner.inner.files@, changes(event).removes@, changes(event).inserts@, p),
        forall|f: FileId| hit(old(self).paths, changes(event), f) ==> #[trigger] wiped(*final(w), final(self).managed, f, old(self).goal_revision@),
        forall|f: FileId| !hit(old(self).paths, changes(event), f) ==> #[trigger] same_at(final(self).managed, old(self).managed, f)
//@end
//@fn crates/tinymist-vfs/src/lib.rs Drop@RevisingVfs::drop as finish C30
//@world Tracked(w): Tracked<&mut World>
    requires sound(*old(w)), rv_ok(*old(w), *old(self)), settled(*old(w), *old(self))
    ensures sound(*final(w)), grown(*old(w), *final(w)), fits(*final(w), *final(self).inner), *final(final(self).inner) == *final(old(self).inner),
        final(self).inner.access_model == old(self).inner.access_model, final(self).inner.source_cache == old(self).inner.source_cache,
        old(self).view_changed ==> !old(w).em.dom().contains(final(self).inner.managed.id()) && !old(w).pm.dom().contains(final(self).inner.paths.id())
            && final(self).inner.revision == old(self).goal_revision && final(w).em[final(self).inner.managed.id()] == old(self).managed,
        !old(self).view_changed ==> *final(self).inner == *old(self).inner
//@end
}
/// what the layers hold
spec fn layers<M: PathAccessModel>(a: VfsAccessModel<M>, b: VfsAccessModel<M>, ids: Map<FileId, FileSnapshot>, paths: Map<PKey, FileSnapshot>, seen: Map<PKey, FileSnapshot>) -> bool {
    a.files@ =~= ids && a.inner.inner.files@ =~= paths && a.inner.inner.inner.files@ =~= seen && a.inner.resolver == b.inner.resolver && a.inner.inner.inner.inner == b.inner.inner.inner.inner
}

// ---- the property --------------------------------------------------------------------
/// what is done to one view leaves the others as they are
proof fn other_view<M: PathAccessModel>(w0: World, w1: World, v: Vfs<M>, s: Vfs<M>)
    requires sound(w0), fits(w0, s), fits(w1, v), stepped(w0, w1, v.managed.id(), v.paths.id()), s.managed.id() != v.managed.id(), s.paths.id() != v.paths.id()
    ensures fits(w1, s), forall|f: FileId| #[trigger] known(w1, s.managed.id(), f) == known(w0, s.managed.id(), f),
        forall|f: FileId| #[trigger] known_src(w0, s.managed.id(), f) is Some ==> known_src(w1, s.managed.id(), f) == known_src(w0, s.managed.id(), f)
{
    let em = v.managed.id();
    let a = w0.em[s.managed.id()];
    assert(w0.em.dom().contains(em) && w0.em.dom().contains(s.managed.id()));
    assert(sep(w0, w0.em[em], a));
    assert forall|f: FileId| #[trigger] a.entries@.dom().contains(f) implies w1.bc[a.entries@[f].bytes.id()] == w0.bc[a.entries@[f].bytes.id()]
        && (w1.sc[a.entries@[f].source.id()] == w0.sc[a.entries@[f].source.id()] || (w0.sc[a.entries@[f].source.id()] is None && w1.em[em].entries@.dom().contains(f) && w1.em[em].entries@[f].bytes.id() == a.entries@[f].bytes.id() && w1.em[em].entries@[f].source.id() == a.entries@[f].source.id())) by {
        assert(w0.bc.dom().contains(a.entries@[f].bytes.id()));
        assert(w0.sc.dom().contains(a.entries@[f].source.id()));
    }
}
spec fn gives_at<M: PathAccessModel>(am: VfsAccessModel<M>, f: FileId, p: Option<Path>, r: Result<Bytes, FileError>) -> bool { am.gives_id(f, p, r) }
spec fn may_give<M: PathAccessModel>(am: VfsAccessModel<M>, f: FileId, r: Result<Bytes, FileError>) -> bool { exists|p: Option<Path>| #[trigger] gives_at(am, f, p, r) }
/// the next read after a change to a buffer: the new content for every file at that path, what was read for the rest, and the old content in a view taken before
fn vx_edit_then_read<M: PathAccessModel>(v: &mut Vfs<M>, path: &Path, snap: FileSnapshot, f: FileId, g: FileId, Tracked(w): Tracked<&mut World>) -> (r: (Result<Bytes, FileError>, Result<Bytes, FileError>))
    requires sound(*old(w)), fits(*old(w), *old(v)), old(v).revision@ < usize::MAX
    ensures sound(*final(w)), fits(*final(w), *final(v)),
        leads(old(v).access_model, f, pk(path@)) && !old(v).access_model.files@.dom().contains(f) ==> r.0 == held(snap),
        !leads(old(v).access_model, f, pk(path@)) ==> (known(*old(w), old(v).managed.id(), f) matches Some(b) ==> r.0 == b.2),
        known(*old(w), old(v).managed.id(), g) matches Some(b) ==> r.1 == b.2,
        may_give(old(v).access_model, g, r.1),
{
    let s = v.snapshot();
    let mut e = v.revise(Tracked(w));
    assert(kept_of(*w, e.managed, f) == known(*old(w), old(v).managed.id(), f));
    let ghost m0 = e.managed;
    let ghost w0 = *w;
    let _ = e.map_shadow(path, snap, Tracked(w));
    assert(!leads(old(v).access_model, f, pk(path@)) ==> same_at(e.managed, m0, f));
    e.finish(Tracked(w));
    assert(fits(*w, s));
    assert(!leads(old(v).access_model, f, pk(path@)) ==> (known(*old(w), old(v).managed.id(), f) matches Some(b) ==> known(*w, v.managed.id(), f) == Some(b)));
    let ghost w1 = *w;
    let a = v.read(f, Tracked(w));
    proof { other_view(w1, *w, *v, s); }
    let ghost w2 = *w;
    let b = s.read(g, Tracked(w));
    proof { other_view(w2, *w, s, *v); }
    assert(gives_at(old(v).access_model, g, (known(*w, s.managed.id(), g)->0).0, b));
    (a, b)
}
/// the same for what the watcher reports, read as a source
fn vx_event_then_source<M: PathAccessModel>(v: &mut Vfs<M>, event: FilesystemEvent, f: FileId, q: Ghost<PKey>, g: FileId, Tracked(w): Tracked<&mut World>) -> (r: (Result<Source, FileError>, Result<Source, FileError>))
    requires sound(*old(w)), fits(*old(w), *old(v)), old(v).revision@ < usize::MAX
    ensures sound(*final(w)), fits(*final(w), *final(v)),
        !old(v).access_model.files@.dom().contains(f) && leads(old(v).access_model, f, q@) && !old(v).access_model.inner.inner.files@.dom().contains(q@)
            ==> (after(old(v).access_model.inner.inner.inner.files@, changes(event).removes@, changes(event).inserts@, q@) matches Some(n) ==> good(f, held(n), r.0)),
        known(*old(w), old(v).managed.id(), g) matches Some(b) ==> good(g, b.2, r.1),
{
    let s = v.snapshot();
    let mut e = v.revise(Tracked(w));
    e.notify_fs_event(event, Tracked(w));
    e.finish(Tracked(w));
    assert(fits(*w, s));
    let ghost w1 = *w;
    assert(at(v.access_model.inner.inner.inner.files@, q@) == after(old(v).access_model.inner.inner.inner.files@, changes(event).removes@, changes(event).inserts@, q@));
    let a = v.source(f, Tracked(w));
    proof { other_view(w1, *w, *v, s); }
    let ghost w2 = *w;
    let b = s.source(g, Tracked(w));
    proof { other_view(w2, *w, s, *v); }
    (a, b)
}
}
fn main() {}
