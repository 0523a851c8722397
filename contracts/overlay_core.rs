// The layers of the virtual file system: shared by the units overlay (C23) and vfs (C30).
//@option map_option map_result and_then_result chains
//@rw type PathBuf => Path
//@rw type ImmutPath => Path
//@rw type TypstFileId => FileId
//@rw type FileResult<$t> => Result<$t, FileError>
//@rw type Arc<RwLock<$t>> => RwLock<$t>
//@rw type Arc<dyn RootResolver + Send + Sync> => VxResolver
//@rw type RedBlackTreeMapSync<$k, $v> => RbMap<$k, $v>
//@rw expr RedBlackTreeMapSync::default() => vx_rb()
//@rw expr RedBlackTreeMapSync::new_sync() => vx_rb()
//@rw expr Arc::new($x) => $x
//@rw expr $x.clone() => vx_dup_(&$x)
//@rw expr $x.cloned() => vx_cloned($x)
//@rw expr $x.into() => vx_dup_(&$x)
//@rw expr $x.as_path() => &$x
//@rw expr $x.keys() => vx_keys(&$x)
//@rw expr $x.extend($y) => vx_extend(&mut $x, $y)
//@rw expr std::fs::metadata($x) => vx_metadata($x)
//@rw expr std::fs::File::open($x) => vx_open($x)
//@rw expr Vec::<u8>::new() => vx_buf()
//@rw expr $x.read_to_end($y) => vx_read_all($x, $y)
//@rw type std::io::Result<$t> => Result<$t, IoErr>
use vstd::prelude::*;
verus! {
uninterp spec fn vx_vac(k: int) -> bool;
fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }
//@include coll.rs
/// what makes two paths the same (their components; std's)
struct PKey { x: int }
uninterp spec fn pk(t: Seq<char>) -> PKey;
/// a path
#[verifier::external_body]
struct Path { x: u8 }
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
trait VxKey { type K; spec fn key(&self) -> Self::K; }
impl VxKey for Path { type K = PKey; spec fn key(&self) -> PKey { pk(self@) } }
impl VxKey for FileId { type K = FileId; spec fn key(&self) -> FileId { *self } }
trait VxDup { type O; spec fn same(&self, o: &Self::O) -> bool; }
impl VxDup for Path { type O = Path; spec fn same(&self, o: &Path) -> bool { self@ == o@ } }
impl VxDup for FileId { type O = FileId; spec fn same(&self, o: &FileId) -> bool { *self == *o } }
impl VxDup for Bytes { type O = Bytes; spec fn same(&self, o: &Bytes) -> bool { *self == *o } }
impl VxDup for FileError { type O = FileError; spec fn same(&self, o: &FileError) -> bool { *self == *o } }
impl VxDup for FileSnapshot { type O = FileSnapshot; spec fn same(&self, o: &FileSnapshot) -> bool { *self == *o } }
impl<T: VxDup<O = T>> VxDup for Box<T> { type O = Box<T>; spec fn same(&self, o: &Box<T>) -> bool { (**self).same(&**o) } }
impl<'a, T: VxDup> VxDup for &'a T { type O = T::O; spec fn same(&self, o: &T::O) -> bool { (**self).same(o) } }
#[verifier::external_body]
fn vx_dup_<T: VxDup>(p: &T) -> (r: T::O) ensures p.same(&r) { unimplemented!() }
#[verifier::external_body]
struct Bytes { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
struct FileId { x: u8 }
enum FileError { AccessDenied, IsDirectory, InvalidUtf8, Other(u8) }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
/// a copy of a key is the same key
trait Ord: Sized + VxKey + VxDup<O = Self> { proof fn same_key(&self, o: &Self) requires self.same(o) ensures self.key() == o.key(); }
impl Ord for Path { proof fn same_key(&self, o: &Path) {} }
impl Ord for FileId { proof fn same_key(&self, o: &FileId) {} }
trait VxClo { type O; spec fn clo(self, o: Self::O) -> bool; }
impl<'a, E> VxClo for Result<&'a Bytes, E> { type O = Result<Bytes, E>; spec fn clo(self, o: Result<Bytes, E>) -> bool { (o is Ok <==> self is Ok) && (self is Ok ==> o->Ok_0 == *self->Ok_0) && (self is Err ==> o->Err_0 == self->Err_0) } }
impl<'a, T: VxDup> VxClo for Option<&'a T> { type O = Option<T::O>; spec fn clo(self, o: Option<T::O>) -> bool { (o is Some <==> self is Some) && (self is Some ==> (self->0).same(&o->0)) } }
impl<'a, T: VxDup> VxClo for &'a T { type O = T::O; spec fn clo(self, o: T::O) -> bool { self.same(&o) } }
#[verifier::external_body]
fn vx_cloned<C: VxClo>(c: C) -> (r: C::O) ensures c.clo(r) { unimplemented!() }
/// a persistent sorted map; two keys are the same if they compare equal
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct RbMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K: VxKey, V> RbMap<K, V> {
    uninterp spec fn view(&self) -> Map<K::K, V>;
    #[verifier::external_body]
    fn get<Q: VxKey<K = K::K> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some <==> self@.dom().contains(k.key()), r is Some ==> *(r->0) == self@[k.key()] { unimplemented!() }
    #[verifier::external_body]
    fn contains_key<Q: VxKey<K = K::K> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.dom().contains(k.key()) { unimplemented!() }
    #[verifier::external_body]
    fn get_mut<Q: VxKey<K = K::K> + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.dom().contains(k.key()),
            r is Some ==> *(r->0) == old(self)@[k.key()] && final(self)@ == old(self)@.insert(k.key(), *final(r->0)),
            r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    fn insert_mut(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k.key(), v) { unimplemented!() }
    #[verifier::external_body]
    fn remove_mut<Q: VxKey<K = K::K> + ?Sized>(&mut self, k: &Q) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(k.key()), r == old(self)@.dom().contains(k.key()) { unimplemented!() }
}
#[verifier::external_body]
fn vx_rb<K: VxKey, V>() -> (r: RbMap<K, V>) ensures r@ == Map::<K::K, V>::empty() { unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct RwLock<T> { p: core::marker::PhantomData<T> }
impl<T> RwLock<T> {
    uninterp spec fn view(&self) -> T;
    #[verifier::external_body]
    fn new(t: T) -> (r: RwLock<T>) ensures r@ == t { unimplemented!() }
    #[verifier::external_body]
    fn read(&self) -> (r: &T) ensures *r == self@ { unimplemented!() }
}
//@type crates/tinymist-vfs/src/snapshot.rs FileSnapshot
//@type crates/tinymist-vfs/src/snapshot.rs FileChangeSet
//@type crates/tinymist-vfs/src/overlay.rs OverlayAccessModel #[verifier::reject_recursive_types(K)]
//@type crates/tinymist-vfs/src/notify.rs NotifyAccessModel
//@type crates/tinymist-vfs/src/resolve.rs ResolveAccessModel
//@type crates/tinymist-vfs/src/lib.rs SharedAccessModel #[verifier::reject_recursive_types(M)]
/// what a snapshot holds
spec fn held(s: FileSnapshot) -> Result<Bytes, FileError> { match s.0 { Ok(b) => Ok(b), Err(e) => Err(*e) } }
/// what may be read for a path / for a file (the lowest layer is free to give anything)
trait PathAccessModel: Sized {
    spec fn gives(&self, p: PKey, r: Result<Bytes, FileError>) -> bool;
    fn content(&self, src: &Path) -> (r: Result<Bytes, FileError>) ensures self.gives(pk(src@), r);
}
trait AccessModel: Sized {
    spec fn gives_id(&self, f: FileId, p: Option<Path>, r: Result<Bytes, FileError>) -> bool;
    fn content(&self, src: FileId) -> (r: (Option<Path>, Result<Bytes, FileError>)) ensures self.gives_id(src, r.0, r.1);
}
impl FileSnapshot {
//@fn crates/tinymist-vfs/src/snapshot.rs FileSnapshot::content C23 C30
//@ret r
    ensures r is Ok <==> held(*self) is Ok, r is Ok ==> Ok::<Bytes, FileError>(*r->Ok_0) == held(*self), r is Err ==> Err::<Bytes, FileError>(r->Err_0) == held(*self)
//@end
//@fn crates/tinymist-vfs/src/snapshot.rs From@FileSnapshot::from as from_result C23 C30
//@ret r
    ensures held(r) == result
//@end
}
impl FileChangeSet {
//@fn crates/tinymist-vfs/src/snapshot.rs FileChangeSet::is_empty C23 C30
//@ret r
    ensures r == (self.removes@.len() == 0 && self.inserts@.len() == 0)
//@end
//@fn crates/tinymist-vfs/src/snapshot.rs FileChangeSet::new_removes C23 C30
//@ret r
    ensures r.removes == removes, r.inserts@.len() == 0
//@end
//@fn crates/tinymist-vfs/src/snapshot.rs FileChangeSet::new_inserts C23 C30
//@ret r
    ensures r.inserts == inserts, r.removes@.len() == 0
//@end
//@fn crates/tinymist-vfs/src/snapshot.rs FileChangeSet::may_insert C23 C30
    ensures final(self).removes == old(self).removes, v is None ==> final(self).inserts@ == old(self).inserts@, v is Some ==> final(self).inserts@ == old(self).inserts@.push(v->0)
//@end
}
impl<M> SharedAccessModel<M> {
//@fn crates/tinymist-vfs/src/lib.rs SharedAccessModel::new C23 C30
//@ret r
    ensures r.inner@ == inner
//@end
}
impl<M: PathAccessModel> PathAccessModel for SharedAccessModel<M> {
    spec fn gives(&self, p: PKey, r: Result<Bytes, FileError>) -> bool { self.inner@.gives(p, r) }
//@fn crates/tinymist-vfs/src/lib.rs PathAccessModel@SharedAccessModel::content C23 C30
//@end
}
broadcast proof fn vx_skip0<T>(s: Seq<T>, n: int) requires n == 0 ensures #[trigger] s.skip(n) == s { assert(s.skip(0) =~= s); }
spec fn keyed<K: Ord>(o: Seq<K>, a: Seq<&K>) -> bool { forall|i: int| #![trigger o[i]] #![trigger a[i]] 0 <= i < o.len() ==> o[i].key() == a[i].key() }
impl<K: Ord, M> OverlayAccessModel<K, M> {
//@fn crates/tinymist-vfs/src/overlay.rs OverlayAccessModel::new C23 C30
//@ret r
    ensures r.files@ == Map::<K::K, FileSnapshot>::empty(), r.inner == inner
//@end
//@fn crates/tinymist-vfs/src/overlay.rs OverlayAccessModel::inner as inner_ C23 C30
//@ret r
    ensures *r == self.inner
//@end
//@fn crates/tinymist-vfs/src/overlay.rs OverlayAccessModel::clear_shadow C23 C30
    ensures final(self).files@ == Map::<K::K, FileSnapshot>::empty(), final(self).inner == old(self).inner
//@end
//@fn crates/tinymist-vfs/src/overlay.rs OverlayAccessModel::add_file C23 C30
//@sig fn add_file<Q: VxKey<K = K::K> + ?Sized, F: Fn(&Q) -> K>(&mut self, path: &Q, snap: FileSnapshot, cast: F)
    requires cast.requires((path,)), forall|k: K| #[trigger] cast.ensures((path,), k) ==> k.key() == path.key()
    ensures final(self).files@ == old(self).files@.insert(path.key(), snap), final(self).inner == old(self).inner
//@end
//@fn crates/tinymist-vfs/src/overlay.rs OverlayAccessModel::file_paths C23 C30
//@ret r
    ensures forall|i: int| 0 <= i < r@.len() ==> self.files@.dom().contains((#[trigger] r@[i]).key()), forall|k: K::K| #[trigger] self.files@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).key() == k
//@entry
    broadcast use vx_skip0;
//@loop 0 for
    invariant 0 <= vx_it0.pos() <= vx_it0.all().len(), vx_out0@.len() == vx_it0.pos(),         forall|i: int| 0 <= i < vx_it0.all().len() ==> self.files@.dom().contains((#[trigger] vx_it0.all()[i]).key()),
        forall|k: K::K| #[trigger] self.files@.dom().contains(k) ==> exists|i: int| 0 <= i < vx_it0.all().len() && (#[trigger] vx_it0.all()[i]).key() == k,
        keyed::<K>(vx_out0@, vx_it0.all())
    ensures vx_it0.pos() == vx_it0.all().len()
    decreases vx_it0.all().len() - vx_it0.pos()
//@loopend 0
    proof { vx_it0.all()[vx_it0.pos() - 1].same_key(&vx_out0@.last()); }
//@end
//@fn crates/tinymist-vfs/src/overlay.rs OverlayAccessModel::remove_file C23 C30
//@sig fn remove_file<Q: VxKey<K = K::K> + ?Sized>(&mut self, path: &Q)
    ensures final(self).files@ == old(self).files@.remove(path.key()), final(self).inner == old(self).inner
//@end
}
impl<M: PathAccessModel> PathAccessModel for OverlayAccessModel<Path, M> {
    spec fn gives(&self, p: PKey, r: Result<Bytes, FileError>) -> bool { if self.files@.dom().contains(p) { r == held(self.files@[p]) } else { self.inner.gives(p, r) } }
//@fn crates/tinymist-vfs/src/overlay.rs PathAccessModel@OverlayAccessModel::content C23 C30
//@end
}
impl<M: AccessModel> AccessModel for OverlayAccessModel<FileId, M> {
    spec fn gives_id(&self, f: FileId, p: Option<Path>, r: Result<Bytes, FileError>) -> bool { if self.files@.dom().contains(f) { p is None && r == held(self.files@[f]) } else { self.inner.gives_id(f, p, r) } }
//@fn crates/tinymist-vfs/src/overlay.rs AccessModel@OverlayAccessModel::content C23 C30
//@end
}
impl<M: PathAccessModel> PathAccessModel for NotifyAccessModel<M> {
    spec fn gives(&self, p: PKey, r: Result<Bytes, FileError>) -> bool { if self.files@.dom().contains(p) { r == held(self.files@[p]) } else { self.inner.gives(p, r) } }
//@fn crates/tinymist-vfs/src/notify.rs PathAccessModel@NotifyAccessModel::content C23 C30
//@end
}
/// what the watcher has reported last for a path: the last insert, or what was there unless removed
spec fn after(m: Map<PKey, FileSnapshot>, rm: Seq<Path>, ins: Seq<(Path, FileSnapshot)>, p: PKey) -> Option<FileSnapshot>
    decreases ins.len()
{
    if ins.len() > 0 { if pk(ins.last().0@) == p { Some(ins.last().1) } else { after(m, rm, ins.drop_last(), p) } }
    else if exists|i: int| 0 <= i < rm.len() && pk(#[trigger] rm[i]@) == p { None }
    else if m.dom().contains(p) { Some(m[p]) } else { None }
}
spec fn at(m: Map<PKey, FileSnapshot>, p: PKey) -> Option<FileSnapshot> { if m.dom().contains(p) { Some(m[p]) } else { None } }
proof fn step_rm(m: Map<PKey, FileSnapshot>, rm: Seq<Path>, i: int)
    requires 0 <= i < rm.len()
    ensures forall|p: PKey| #[trigger] after(m, rm.take(i + 1), seq![], p) == (if pk(rm[i]@) == p { None } else { after(m, rm.take(i), seq![], p) })
{
    let a = rm.take(i); let b = rm.take(i + 1);
    assert forall|p: PKey| #[trigger] after(m, b, seq![], p) == (if pk(rm[i]@) == p { None } else { after(m, a, seq![], p) }) by {
        assert(b[i] == rm[i]);
        if exists|j: int| 0 <= j < a.len() && pk(#[trigger] a[j]@) == p { let j = choose|j: int| 0 <= j < a.len() && pk(#[trigger] a[j]@) == p; assert(b[j] == a[j]); }
        if exists|j: int| 0 <= j < b.len() && pk(#[trigger] b[j]@) == p { let j = choose|j: int| 0 <= j < b.len() && pk(#[trigger] b[j]@) == p; if j < i { assert(a[j] == b[j]); } }
    }
}
proof fn step_ins(m: Map<PKey, FileSnapshot>, rm: Seq<Path>, ins: Seq<(Path, FileSnapshot)>, i: int)
    requires 0 <= i < ins.len()
    ensures forall|p: PKey| #[trigger] after(m, rm, ins.take(i + 1), p) == (if pk(ins[i].0@) == p { Some(ins[i].1) } else { after(m, rm, ins.take(i), p) })
{ assert(ins.take(i + 1).drop_last() =~= ins.take(i)); }
impl<M: PathAccessModel> NotifyAccessModel<M> {
//@fn crates/tinymist-vfs/src/notify.rs NotifyAccessModel::new C23 C30
//@ret r
    ensures r.files@ == Map::<PKey, FileSnapshot>::empty(), r.inner == inner
//@end
//@fn crates/tinymist-vfs/src/notify.rs NotifyAccessModel::notify C23 C30
    ensures final(self).inner == old(self).inner,
        forall|p: PKey| #[trigger] at(final(self).files@, p) == after(old(self).files@, changeset.removes@, changeset.inserts@, p)
//@entry
    proof { assert(changeset.removes@.take(changeset.removes@.len() as int) =~= changeset.removes@); assert(changeset.inserts@.take(changeset.inserts@.len() as int) =~= changeset.inserts@);
        assert(changeset.inserts@.take(0) =~= seq![]); }
//@loop 0 for
    invariant self.inner == old(self).inner, 0 <= vx_it0.pos() <= vx_it0.all().len(), vx_it0.all() == changeset.removes@,
        forall|p: PKey| #![trigger at(self.files@, p)] #![trigger after(old(self).files@, changeset.removes@.take(vx_it0.pos()), seq![], p)] at(self.files@, p) == after(old(self).files@, changeset.removes@.take(vx_it0.pos()), seq![], p)
    ensures vx_it0.pos() == vx_it0.all().len()
    decreases vx_it0.all().len() - vx_it0.pos()
//@loopstart 0
    proof { if vx_it0.pos() < vx_it0.all().len() { step_rm(old(self).files@, changeset.removes@, vx_it0.pos()); } }
//@loop 1 for
    invariant self.inner == old(self).inner, 0 <= vx_it1.pos() <= vx_it1.all().len(), vx_it1.all() == changeset.inserts@,
        forall|p: PKey| #![trigger at(self.files@, p)] #![trigger after(old(self).files@, changeset.removes@, changeset.inserts@.take(vx_it1.pos()), p)] at(self.files@, p) == after(old(self).files@, changeset.removes@, changeset.inserts@.take(vx_it1.pos()), p)
    ensures vx_it1.pos() == vx_it1.all().len()
    decreases vx_it1.all().len() - vx_it1.pos()
//@loopstart 1
    proof { if vx_it1.pos() < vx_it1.all().len() { step_ins(old(self).files@, changeset.removes@, changeset.inserts@, vx_it1.pos()); } }
//@end
}
#[verifier::external_body]
fn vx_extend<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
#[verifier::external_body]
fn vx_keys<K: VxKey, V>(m: &RbMap<K, V>) -> (r: VxIt<&K>)
    ensures r.pos() == 0, forall|i: int| 0 <= i < r.all().len() ==> m@.dom().contains((#[trigger] r.all()[i]).key()), forall|k: K::K| #[trigger] m@.dom().contains(k) ==> exists|i: int| 0 <= i < r.all().len() && (#[trigger] r.all()[i]).key() == k { unimplemented!() }

struct VxResolver { x: u8 }
#[verifier::external_body]
struct VirtualPath { x: u8 }
enum Cow<T> { Borrowed(T), Owned(T) }
//@rw type Cow<'static, VirtualPath> => Cow<VirtualPath>
//@type crates/tinymist-vfs/src/path_mapper.rs PathResolution
impl PathResolution {
//@fn crates/tinymist-vfs/src/path_mapper.rs PathResolution::to_err C23 C30
//@ret r
    ensures r == (match self { PathResolution::Resolved(p) => Ok::<Path, FileError>(p), PathResolution::Rootless(_) => Err(FileError::AccessDenied) })
//@end
}
impl VxResolver {
    uninterp spec fn path_of(&self, f: FileId) -> Result<PathResolution, FileError>;
    #[verifier::external_body]
    fn path_for_id(&self, f: FileId) -> (r: Result<PathResolution, FileError>) ensures r == self.path_of(f) { unimplemented!() }
}
impl<M: PathAccessModel> AccessModel for ResolveAccessModel<M> {
    spec fn gives_id(&self, f: FileId, p: Option<Path>, r: Result<Bytes, FileError>) -> bool {
        match self.resolver.path_of(f) {
            Err(e) => p is None && r == Err::<Bytes, FileError>(e),
            Ok(PathResolution::Rootless(_)) => p is None && r == Err::<Bytes, FileError>(FileError::AccessDenied),
            Ok(PathResolution::Resolved(q)) => p is Some && (p->0)@ == q@ && self.inner.gives(pk(q@), r),
        }
    }
//@fn crates/tinymist-vfs/src/resolve.rs AccessModel@ResolveAccessModel::content C23 C30
//@end
}

