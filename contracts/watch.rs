// Unit: the file watcher (C27).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@option chains inline_async
//@rw type ImmutPath => Path
//@rw type PathBuf => Path
//@rw type FileResult<$t> => core::result::Result<$t, FileError>
//@rw type dyn NotifyDeps => Vec<Path>
//@rw type notify::Event => Event
//@rw type notify::Result<$t> => core::result::Result<$t, VxErr>
//@rw type tinymist_std::time::Instant => Instant
//@rw expr tinymist_std::time::Instant::now() => vx_now()
//@rw expr FileError::from_io($x_list) => vx_io_err()
//@rw expr Box::new => vx_box
//@rw expr $x.as_path() => &$x
//@rw expr $x.into() => vx_into($x)
//@rw expr $x.clone() => vx_clone(&$x)
//@rw expr $x.as_ref() => vx_as(&$x)
//@rw expr $x.as_deref() => vx_deref(&$x)
//@rw expr $x.vx_each_dependencies() => $x
//@rw expr $x.unwrap_or_default() => vx_or_default($x)
//@rw expr $x.iter() => &$x
//@rw expr FileSnapshot::from($x) => FileSnapshot::of($x)
//@rw expr $x == $y => vx_eq(&$x, &$y)
//@rw expr (self.interrupted_by_events)($x) => self.vx_tell($x)
//@rw expr std::mem::take($x) => vx_take_state($x)
//@rw expr vx_await($x) => $x
//@rw expr tokio::spawn($x) => $x
//@rw expr tokio::time::sleep($x) => ()
//@rw expr std::time::Duration::from_millis($x) => vx_millis($x)
//@thread content send vx_tell notify_entry_update update_watches notify_event invalidate_upstream recheck_notify_event vx_select metadata watch unwatch
use vstd::prelude::*;
use vstd::multiset::*;
verus! {
uninterp spec fn vx_vac(k: int) -> bool;
fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
fn vx_panic<T>() -> T requires false { unimplemented!() }
//@include coll.rs
struct PKey { x: int }
uninterp spec fn pk(t: Seq<char>) -> PKey;
/// a path; two are the same if their components are (std's)
#[verifier::external_body]
struct Path { x: u8 }
impl Path {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn metadata(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<Metadata, VxErr>)
        ensures *final(w) == (World { files: if r is Ok && !(r->Ok_0).dir() { old(w).files.insert(pk(self@)) } else { old(w).files.remove(pk(self@)) }, ..*old(w) }) { unimplemented!() }
}
#[verifier::external_body]
#[derive(Debug)]
struct VxErr { x: u8 }
#[verifier::external_body]
struct Metadata { x: u8 }
impl Metadata {
    uninterp spec fn dir(&self) -> bool;
    #[verifier::external_body]
    fn is_dir(&self) -> (r: bool) ensures r == self.dir() { unimplemented!() }
}
/// a text in bytes
#[verifier::external_body]
struct Bytes { x: u8 }
impl Bytes {
    uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
#[verifier::external_body]
struct Text { x: u8 }
enum FileError { NotFound(Text), AccessDenied, IsDirectory, NotSource, InvalidUtf8, Package(Text), Other(Option<Text>) }
#[verifier::external_body]
fn vx_io_err() -> FileError { unimplemented!() }
fn vx_box(e: FileError) -> (r: Box<FileError>) ensures *r == e { Box::new(e) }
//@type crates/tinymist-vfs/src/snapshot.rs FileSnapshot
//@type crates/tinymist-vfs/src/snapshot.rs FileChangeSet
type FileEntry = (Path, FileSnapshot);
type NotifyDeps = Vec<Path>;
/// what is in a file
type Held = Result<Seq<u8>, FileError>;
spec fn held(s: FileSnapshot) -> Held { match s.0 { Ok(b) => Ok(b@), Err(e) => Err(*e) } }
spec fn held_in(r: Result<Bytes, FileError>) -> Held { match r { Ok(b) => Ok(b@), Err(e) => Err(e) } }
impl FileSnapshot {
//@fn crates/tinymist-vfs/src/snapshot.rs From@FileSnapshot::from as of C27
//@ret r
    ensures held(r) == held_in(result)
//@end
}
trait VxInto { type O; spec fn conv(self, o: Self::O) -> bool; }
impl VxInto for Result<Bytes, FileError> { type O = FileSnapshot; spec fn conv(self, o: FileSnapshot) -> bool { held(o) == held_in(self) } }
impl<'a> VxInto for &'a Path { type O = Path; spec fn conv(self, o: Path) -> bool { pk(self@) == pk(o@) } }
impl<'b, 'a> VxInto for &'b &'a Path { type O = Path; spec fn conv(self, o: Path) -> bool { pk(self@) == pk(o@) } }
#[verifier::external_body]
fn vx_into<T: VxInto>(t: T) -> (r: T::O) ensures t.conv(r) { unimplemented!() }
trait VxCopy { type O; spec fn same(self, o: Self::O) -> bool; }
impl<'a> VxCopy for &'a Path { type O = Path; spec fn same(self, o: Path) -> bool { pk(self@) == pk(o@) } }
impl<'b, 'a> VxCopy for &'b &'a Path { type O = Path; spec fn same(self, o: Path) -> bool { pk(self@) == pk(o@) } }
impl<'a> VxCopy for &'a FileSnapshot { type O = FileSnapshot; spec fn same(self, o: FileSnapshot) -> bool { held(*self) == held(o) } }
impl<'a> VxCopy for &'a Sender { type O = Sender; spec fn same(self, o: Sender) -> bool { true } }
#[verifier::external_body]
fn vx_clone<T: VxCopy>(t: T) -> (r: T::O) ensures t.same(r) { unimplemented!() }
trait VxAs { type O; spec fn seen(self, o: Self::O) -> bool; }
impl<'a, T, E> VxAs for &'a Result<T, E> { type O = Result<&'a T, &'a E>; spec fn seen(self, o: Result<&'a T, &'a E>) -> bool { match *self { Ok(v) => o is Ok && *(o->Ok_0) == v, Err(e) => o is Err && *(o->Err_0) == e } } }
impl<'b, 'a, T, E> VxAs for &'b &'a Result<T, E> { type O = Result<&'a T, &'a E>; spec fn seen(self, o: Result<&'a T, &'a E>) -> bool { match **self { Ok(v) => o is Ok && *(o->Ok_0) == v, Err(e) => o is Err && *(o->Err_0) == e } } }
impl<'a> VxAs for &'a FileSnapshot { type O = Result<&'a Bytes, &'a Box<FileError>>; spec fn seen(self, o: Result<&'a Bytes, &'a Box<FileError>>) -> bool { match self.0 { Ok(v) => o is Ok && *(o->Ok_0) == v, Err(e) => o is Err && *(o->Err_0) == e } } }
impl<'a, T> VxAs for &'a Option<T> { type O = Option<&'a T>; spec fn seen(self, o: Option<&'a T>) -> bool { match *self { Some(v) => o is Some && *(o->0) == v, None => o is None } } }
impl<'a, T> VxAs for &'a Box<T> { type O = &'a T; spec fn seen(self, o: &'a T) -> bool { **self == *o } }
impl<'b, 'a, T> VxAs for &'b &'a Box<T> { type O = &'a T; spec fn seen(self, o: &'a T) -> bool { ***self == *o } }
impl<'b, 'a> VxAs for &'b &'a Path { type O = &'a Path; spec fn seen(self, o: &'a Path) -> bool { **self == *o } }
impl<'a> VxAs for &'a Path { type O = &'a Path; spec fn seen(self, o: &'a Path) -> bool { *self == *o } }
#[verifier::external_body]
fn vx_as<T: VxAs>(t: T) -> (r: T::O) ensures t.seen(r) { unimplemented!() }
/// Option::as_deref; a snapshot dereferences to its result
#[verifier::external_body]
fn vx_deref(o: &Option<FileSnapshot>) -> (r: Option<&Result<Bytes, Box<FileError>>>) ensures r is Some <==> o is Some, r is Some ==> *(r->0) == (o->0).0 { unimplemented!() }
/// the derived comparisons
trait VxEq { type K; spec fn key(&self) -> Self::K; }
impl VxEq for Bytes { type K = Seq<u8>; spec fn key(&self) -> Seq<u8> { self@ } }
impl VxEq for Box<FileError> { type K = FileError; spec fn key(&self) -> FileError { **self } }
impl VxEq for FileSnapshot { type K = Held; spec fn key(&self) -> Held { held(*self) } }
impl VxEq for usize { type K = usize; spec fn key(&self) -> usize { *self } }
impl VxEq for Path { type K = PKey; spec fn key(&self) -> PKey { pk(self@) } }
impl<'a, T: VxEq> VxEq for &'a T { type K = T::K; spec fn key(&self) -> T::K { (**self).key() } }
impl<T: VxEq> VxEq for Option<T> { type K = Option<T::K>; spec fn key(&self) -> Option<T::K> { match *self { Some(x) => Some(x.key()), None => None } } }
#[verifier::external_body]
fn vx_eq<A: VxEq, B: VxEq<K = A::K>>(a: &A, b: &B) -> (r: bool) ensures r == (a.key() == b.key()) { unimplemented!() }
/// std's map
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct HashMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K: VxEq, V> HashMap<K, V> {
    uninterp spec fn view(&self) -> Map<K::K, V>;
    #[verifier::external_body]
    fn contains_key<Q: VxEq<K = K::K> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.key()) { unimplemented!() }
    #[verifier::external_body]
    fn get<Q: VxEq<K = K::K> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some <==> self@.dom().contains(k.key()), r is Some ==> *(r->0) == self@[k.key()] { unimplemented!() }
    #[verifier::external_body]
    fn get_mut<Q: VxEq<K = K::K> + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.dom().contains(k.key()),
            r is Some ==> *(r->0) == old(self)@[k.key()] && final(self)@ == old(self)@.insert(k.key(), *final(r->0)),
            r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    /// the entry of a key that is there
    #[verifier::external_body]
    fn vx_at<Q: VxEq<K = K::K> + ?Sized>(&mut self, k: &Q) -> (r: &mut V)
        requires old(self)@.dom().contains(k.key())
        ensures *r == old(self)@[k.key()], final(self)@ == old(self)@.insert(k.key(), *final(r)) { unimplemented!() }
    #[verifier::external_body]
    fn vx_new(&mut self, k: &K, v: V) ensures final(self)@ == old(self)@.insert(k.key(), v) { unimplemented!() }
    /// every key once, in some order
    #[verifier::external_body]
    fn vx_keys(&self) -> (r: VxIt<K>) ensures r.pos() == 0, keys_of(r.all(), self@) { unimplemented!() }
    /// retain: everything taken out, to be put back if it stays
    #[verifier::external_body]
    fn vx_take_all(&mut self) -> (r: VxIt<(K, V)>) ensures r.pos() == 0, lists(r.all(), old(self)@), final(self)@ == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn vx_put_back(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k.key(), v) { unimplemented!() }
}
spec fn keys_of<K: VxEq, V>(s: Seq<K>, m: Map<K::K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).key())
    &&& forall|k: K::K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key() == k
}
spec fn lists<K: VxEq, V>(s: Seq<(K, V)>, m: Map<K::K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0.key()) && m[s[i].0.key()] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.key() != (#[trigger] s[j]).0.key()
    &&& forall|k: K::K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.key() == k
}
impl FileChangeSet {
    /// derived
    #[verifier::external_body]
    fn default() -> (r: FileChangeSet) ensures r.inserts@.len() == 0, r.removes@.len() == 0 { unimplemented!() }
//@fn crates/tinymist-vfs/src/snapshot.rs FileChangeSet::is_empty C27
//@ret r
    ensures r == (self.inserts@.len() == 0 && self.removes@.len() == 0)
//@end
//@fn crates/tinymist-vfs/src/snapshot.rs FileChangeSet::may_insert C27
    ensures final(self).removes == old(self).removes, final(self).inserts@ == (match v { Some(v) => old(self).inserts@.push(v), None => old(self).inserts@ })
//@end
}
fn vx_or_default(o: Option<FileChangeSet>) -> (r: FileChangeSet) ensures o is Some ==> r == o->0, o is None ==> r.inserts@.len() == 0 && r.removes@.len() == 0 { match o { Some(c) => c, None => FileChangeSet::default() } }
type Known = Map<PKey, Held>;
spec fn gone(m: Known, rm: Seq<Path>) -> Known decreases rm.len() { if rm.len() == 0 { m } else { gone(m, rm.drop_last()).remove(pk(rm.last()@)) } }
spec fn came(m: Known, ins: Seq<(Path, FileSnapshot)>) -> Known decreases ins.len() { if ins.len() == 0 { m } else { came(m, ins.drop_last()).insert(pk(ins.last().0@), held(ins.last().1)) } }
/// what the consumer knows after a change set
spec fn after(m: Known, c: FileChangeSet) -> Known { came(gone(m, c.removes@), c.inserts@) }
broadcast proof fn gone0(m: Known, rm: Seq<Path>) requires rm.len() == 0 ensures #[trigger] gone(m, rm) == m {}
broadcast proof fn came0(m: Known, ins: Seq<(Path, FileSnapshot)>) requires ins.len() == 0 ensures #[trigger] came(m, ins) == m {}
broadcast proof fn came1(m: Known, ins: Seq<(Path, FileSnapshot)>) requires ins.len() == 1 ensures #[trigger] came(m, ins) == m.insert(pk(ins[0].0@), held(ins[0].1)) { assert(ins.drop_last().len() == 0); reveal_with_fuel(came, 2); }
broadcast proof fn came_push(m: Known, ins: Seq<(Path, FileSnapshot)>, v: (Path, FileSnapshot)) ensures #[trigger] came(m, ins.push(v)) == came(m, ins).insert(pk(v.0@), held(v.1)) { assert(ins.push(v).drop_last() =~= ins); }
/// each change tells something else than what is known
spec fn news(m: Known, ins: Seq<(Path, FileSnapshot)>) -> bool decreases ins.len() {
    ins.len() == 0 || (news(m, ins.drop_last()) && ({ let k = came(m, ins.drop_last()); let p = pk(ins.last().0@); k.dom().contains(p) ==> k[p] != held(ins.last().1) }))
}
broadcast proof fn news0(m: Known, ins: Seq<(Path, FileSnapshot)>) requires ins.len() == 0 ensures #[trigger] news(m, ins) {}
broadcast proof fn news1(m: Known, ins: Seq<(Path, FileSnapshot)>) requires ins.len() == 1 ensures #[trigger] news(m, ins) == (m.dom().contains(pk(ins[0].0@)) ==> m[pk(ins[0].0@)] != held(ins[0].1)) { assert(ins.drop_last().len() == 0); reveal_with_fuel(news, 2); }
broadcast proof fn news_push(m: Known, ins: Seq<(Path, FileSnapshot)>, v: (Path, FileSnapshot))
    ensures #[trigger] news(m, ins.push(v)) == (news(m, ins) && (came(m, ins).dom().contains(pk(v.0@)) ==> came(m, ins)[pk(v.0@)] != held(v.1)))
{ assert(ins.push(v).drop_last() =~= ins); }
/// `a` knows no more than `b`
spec fn within_of(a: Known, b: Known) -> bool { forall|p: PKey| #[trigger] a.dom().contains(p) ==> b.dom().contains(p) && a[p] == b[p] }
proof fn news_less(a: Known, b: Known, ins: Seq<(Path, FileSnapshot)>)
    requires within_of(a, b)
    ensures within_of(came(a, ins), came(b, ins)), news(b, ins) ==> news(a, ins)
    decreases ins.len()
{ if ins.len() > 0 { news_less(a, b, ins.drop_last()); } }
proof fn gone_less(m: Known, rm: Seq<Path>)
    ensures within_of(gone(m, rm), m), forall|p: PKey| m.dom().contains(p) && (forall|i: int| 0 <= i < rm.len() ==> pk((#[trigger] rm[i])@) != p) ==> #[trigger] gone(m, rm).dom().contains(p)
    decreases rm.len()
{
    if rm.len() > 0 {
        gone_less(m, rm.drop_last());
        assert forall|p: PKey| m.dom().contains(p) && (forall|i: int| 0 <= i < rm.len() ==> pk((#[trigger] rm[i])@) != p) implies #[trigger] gone(m, rm).dom().contains(p) by {
            assert(forall|i: int| 0 <= i < rm.drop_last().len() ==> rm.drop_last()[i] == rm[i]);
            assert(pk(rm[rm.len() - 1]@) != p);
            assert(gone(m, rm.drop_last()).dom().contains(p));
        }
    }
}
/// knowing less, but not about p
proof fn came_less(a: Known, b: Known, ins: Seq<(Path, FileSnapshot)>, p: PKey)
    requires within_of(a, b), a.dom().contains(p) <==> b.dom().contains(p)
    ensures came(a, ins).dom().contains(p) <==> came(b, ins).dom().contains(p), came(b, ins).dom().contains(p) ==> came(a, ins)[p] == came(b, ins)[p]
    decreases ins.len()
{ if ins.len() > 0 { came_less(a, b, ins.drop_last(), p); } }
spec fn ups_after(u: Seq<UpstreamUpdateEvent>, e: FilesystemEvent) -> Seq<UpstreamUpdateEvent> { match e { FilesystemEvent::UpstreamUpdate { upstream_event: Some(x), .. } => u.push(x), _ => u } }
broadcast group sets { in_push, gone0, came0, came_push, news0, news_push, vx_skip0 }
broadcast proof fn vx_skip0<T>(s: Seq<T>, n: int) requires n == 0 ensures #[trigger] s.skip(n) == s { assert(s.skip(0) =~= s); }
/// what was read, what the consumer was told, which rechecks are to come
tracked struct World {
    ghost read: Known,
    ghost told: Known,
    ghost queue: Set<(PKey, usize)>,
    /// those already to come when the event at hand came
    ghost before: Set<(PKey, usize)>,
    /// the reads so far
    ghost reads: Multiset<PKey>,
    /// what was seen to be a file last, and what could not be watched
    ghost files: Set<PKey>,
    ghost failed: Set<PKey>,
    /// the upstream events handed on
    ghost ups: Seq<UpstreamUpdateEvent>,
}
struct SystemAccessModel;
impl SystemAccessModel {
    #[verifier::external_body]
    fn content(&self, p: &Path, Tracked(w): Tracked<&mut World>) -> (r: Result<Bytes, FileError>)
        ensures *final(w) == (World { read: old(w).read.insert(pk(p@), held_in(r)), reads: old(w).reads.insert(pk(p@)), ..*old(w) }) { unimplemented!() }
}
#[verifier::external_body]
struct Sender { x: u8 }
impl Sender {
    #[verifier::external_body]
    fn send(&self, e: UndeterminedNotifyEvent, Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxErr>)
        // a recheck can be told from those of earlier events
        requires !old(w).before.contains((pk(e.path@), e.at_logical_tick))
        ensures *final(w) == (World { queue: old(w).queue.insert((pk(e.path@), e.at_logical_tick)), ..*old(w) }) { unimplemented!() }
}
#[derive(Clone, Copy)]
struct Instant { x: u8 }
#[derive(Clone, Copy)]
struct Duration { x: u8 }
#[verifier::external_body]
fn vx_now() -> Instant { unimplemented!() }
#[verifier::external_body]
fn vx_since(a: Instant, b: Instant) -> Duration { unimplemented!() }
#[verifier::external_body]
fn vx_millis(n: u64) -> Duration { unimplemented!() }
#[verifier::external_body]
fn vx_less(a: Duration, b: Duration) -> bool { unimplemented!() }
#[verifier::external_body]
struct RecommendedWatcher { x: u8 }
#[verifier::external_body]
struct Receiver { x: u8 }
type WatcherPair = (RecommendedWatcher, Receiver);
enum RecursiveMode { Recursive, NonRecursive }
impl RecommendedWatcher {
    /// what is watched
    uninterp spec fn view(&self) -> Set<PKey>;
    #[verifier::external_body]
    fn watch(&mut self, p: &Path, m: RecursiveMode, Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxErr>)
        ensures r is Ok ==> final(self)@ == old(self)@.insert(pk(p@)) && *final(w) == *old(w), r is Err ==> final(self)@ == old(self)@ && *final(w) == (World { failed: old(w).failed.insert(pk(p@)), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    fn unwatch(&mut self, p: &Path, Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxErr>) ensures final(self)@ == old(self)@.remove(pk(p@)), *final(w) == *old(w) { unimplemented!() }
}
enum RemoveKind { Any, File, Folder, Other }
enum RenameMode { Any, To, From, Both, Other }
enum ModifyKind { Any, Data(u8), Metadata(u8), Name(RenameMode), Other }
enum EventKind { Any, Access(u8), Create(u8), Modify(ModifyKind), Remove(RemoveKind), Other }
mod notify { pub(crate) use super::EventKind; pub(crate) mod event { pub(crate) use super::super::{ModifyKind, RemoveKind, RenameMode}; } }
struct Event { kind: EventKind, paths: Vec<Path> }
#[verifier::external_body]
struct Opaque { x: u8 }
struct UpstreamUpdateEvent { invalidates: Vec<Path>, opaque: Opaque }
enum FilesystemEvent { Update(FileChangeSet), UpstreamUpdate { changeset: FileChangeSet, upstream_event: Option<UpstreamUpdateEvent> } }
spec fn changes(e: FilesystemEvent) -> FileChangeSet { match e { FilesystemEvent::Update(c) => c, FilesystemEvent::UpstreamUpdate { changeset, .. } => changeset } }
//@type crates/tinymist-project/src/watch.rs WatchState
//@type crates/tinymist-project/src/watch.rs WatchedEntry
//@type crates/tinymist-project/src/watch.rs UndeterminedNotifyEvent
impl WatchState {
//@fn crates/tinymist-project/src/watch.rs Default@WatchState::default C27
//@ret r
    ensures r is Stable
//@end
}
fn vx_take_state(s: &mut WatchState) -> (r: WatchState) ensures r == *old(s), *final(s) is Stable { let mut t = WatchState::default(); core::mem::swap(s, &mut t); t }
struct NotifyActor {
    inner: SystemAccessModel,
    lifetime: usize,
    logical_tick: usize,
    undetermined_send: Sender,
    watched_entries: HashMap<Path, WatchedEntry>,
    watcher: Option<WatcherPair>,
}
/// the consumer knows what the entry says it knows
spec fn knows(e: WatchedEntry, p: PKey, told: Known) -> bool { e.prev is Some ==> told.dom().contains(p) && told[p] == held(e.prev->0) }
/// what was read last is known, or a recheck is to come
spec fn waits(e: WatchedEntry, p: PKey, read: Known, queue: Set<(PKey, usize)>) -> bool {
    &&& e.state is Stable && e.prev is Some ==> read.dom().contains(p) && read[p] == held(e.prev->0)
    &&& e.state matches WatchState::EmptyOrRemoval { recheck_at, .. } ==> e.prev is Some && queue.contains((p, recheck_at))
}
spec fn all_wait(m: Map<PKey, WatchedEntry>, w: World) -> bool { forall|p: PKey| #[trigger] m.dom().contains(p) ==> waits(m[p], p, w.read, w.queue) }
spec fn all_known(m: Map<PKey, WatchedEntry>, told: Known) -> bool { forall|p: PKey| #[trigger] m.dom().contains(p) ==> knows(m[p], p, told) }
spec fn all_aged(m: Map<PKey, WatchedEntry>, n: usize) -> bool { forall|p: PKey| #[trigger] m.dom().contains(p) ==> m[p].lifetime <= n }
/// with a watcher, everything watched was told once; without, everything is told again
spec fn all_told(a: NotifyActor) -> bool { forall|p: PKey| #[trigger] a.watched_entries@.dom().contains(p) ==> (a.watched_entries@[p].prev is Some <==> a.watcher is Some) }
spec fn same_but_seen(a: WatchedEntry, b: WatchedEntry) -> bool { a.lifetime == b.lifetime && a.watching == b.watching && a.state == b.state && a.prev == b.prev }
/// in the middle of a change set
spec fn ok_so_far(a: NotifyActor, w: World, ins: Seq<(Path, FileSnapshot)>) -> bool {
    let m = a.watched_entries@;
    all_wait(m, w) && all_known(m, came(w.told, ins)) && told_of(m, came(w.told, ins)) && all_aged(m, a.lifetime) && all_told(a) && all_watched(m, a.watcher)
}
/// the dependency was dealt with
spec fn done(a: NotifyActor, w: World, w0: World, ins: Seq<(Path, FileSnapshot)>, p: PKey) -> bool {
    let e = a.watched_entries@[p];
    &&& e.lifetime == a.lifetime && w.reads.count(p) > w0.reads.count(p)
    &&& a.watcher is None ==> came(w.told, ins).dom().contains(p) && w.read.dom().contains(p) && came(w.told, ins)[p] == w.read[p]
    &&& a.watcher is Some && w.files.contains(p) ==> e.watching || w.failed.contains(p)
}
spec fn same_but_watching(a: WatchedEntry, b: WatchedEntry) -> bool { a.lifetime == b.lifetime && a.seen == b.seen && a.state == b.state && a.prev == b.prev && (a.seen ==> a.watching == b.watching) }
spec fn is_in(rm: Seq<Path>, p: PKey) -> bool { exists|j: int| 0 <= j < rm.len() && pk((#[trigger] rm[j])@) == p }
broadcast proof fn in_push(rm: Seq<Path>, v: Path, p: PKey) ensures #[trigger] is_in(rm.push(v), p) == (is_in(rm, p) || pk(v@) == p)
{
    if pk(v@) == p { assert(rm.push(v)[rm.len() as int] == v); }
    if is_in(rm, p) { let j = choose|j: int| 0 <= j < rm.len() && pk((#[trigger] rm[j])@) == p; assert(rm.push(v)[j] == rm[j]); }
    if is_in(rm.push(v), p) { let j = choose|j: int| 0 <= j < rm.len() + 1 && pk((#[trigger] rm.push(v)[j])@) == p; if j < rm.len() { assert(rm[j] == rm.push(v)[j]); } }
}
spec fn after_retain(m1: Map<PKey, WatchedEntry>, m2: Map<PKey, WatchedEntry>, rm: Seq<Path>) -> bool {
    &&& forall|p: PKey| #[trigger] m2.dom().contains(p) ==> m1.dom().contains(p) && same_but_watching(m1[p], m2[p]) && !is_in(rm, p)
    &&& forall|p: PKey| #[trigger] m1.dom().contains(p) ==> m2.dom().contains(p) || is_in(rm, p)
    &&& forall|p: PKey| #[trigger] m1.dom().contains(p) && m1[p].seen ==> m2.dom().contains(p)
}
proof fn came_not(m: Known, ins: Seq<(Path, FileSnapshot)>, p: PKey)
    requires forall|j: int| 0 <= j < ins.len() ==> pk((#[trigger] ins[j]).0@) != p
    ensures came(m, ins).dom().contains(p) <==> m.dom().contains(p), m.dom().contains(p) ==> came(m, ins)[p] == m[p]
    decreases ins.len()
{ if ins.len() > 0 { assert(pk(ins[ins.len() - 1].0@) != p); assert forall|j: int| 0 <= j < ins.drop_last().len() implies pk((#[trigger] ins.drop_last()[j]).0@) != p by { assert(ins.drop_last()[j] == ins[j]); } came_not(m, ins.drop_last(), p); } }
proof fn gone_in(m: Known, rm: Seq<Path>, p: PKey)
    requires is_in(rm, p)
    ensures !gone(m, rm).dom().contains(p)
    decreases rm.len()
{
    let j = choose|j: int| 0 <= j < rm.len() && pk((#[trigger] rm[j])@) == p;
    if j < rm.len() - 1 { assert(rm.drop_last()[j] == rm[j]); gone_in(m, rm.drop_last(), p); }
}
/// forgetting entries, and telling so
proof fn retained(t0: Known, m1: Map<PKey, WatchedEntry>, m2: Map<PKey, WatchedEntry>, rm: Seq<Path>, ins: Seq<(Path, FileSnapshot)>)
    requires after_retain(m1, m2, rm), all_known(m1, came(t0, ins)), told_of(m1, came(t0, ins)),
        forall|j: int| 0 <= j < ins.len() ==> m1.dom().contains(pk((#[trigger] ins[j]).0@)) && m1[pk(ins[j].0@)].seen,
    ensures all_known(m2, came(gone(t0, rm), ins)), told_of(m2, came(gone(t0, rm), ins)), news(t0, ins) ==> news(gone(t0, rm), ins),
        forall|p: PKey| #[trigger] m2.dom().contains(p) && came(t0, ins).dom().contains(p) ==> came(gone(t0, rm), ins).dom().contains(p) && came(gone(t0, rm), ins)[p] == came(t0, ins)[p]
{
    let g = gone(t0, rm);
    gone_less(t0, rm);
    news_less(g, t0, ins);
    assert forall|p: PKey| #[trigger] m2.dom().contains(p) && came(t0, ins).dom().contains(p) implies came(g, ins).dom().contains(p) && came(g, ins)[p] == came(t0, ins)[p] by {
        assert(!is_in(rm, p)); came_less(g, t0, ins, p);
    }
    assert forall|p: PKey| #[trigger] came(g, ins).dom().contains(p) implies m2.dom().contains(p) by {
        if !m2.dom().contains(p) {
            assert(m1.dom().contains(p)); assert(is_in(rm, p)); gone_in(t0, rm, p);
            assert forall|j: int| 0 <= j < ins.len() implies pk((#[trigger] ins[j]).0@) != p by {}
            came_not(g, ins, p);
        }
    }
}
/// between two events
/// what is said to be watched is
spec fn all_watched(m: Map<PKey, WatchedEntry>, wt: Option<WatcherPair>) -> bool { wt is Some ==> forall|p: PKey| #[trigger] m.dom().contains(p) && m[p].watching ==> (wt->0).0@.contains(p) }
/// rechecks are told apart by their ticks
spec fn ticked(a: NotifyActor, w: World) -> bool { forall|p: PKey, t: usize| #[trigger] w.queue.contains((p, t)) ==> t <= a.logical_tick }
spec fn timely(a: NotifyActor, w: World) -> bool { ticked(a, w) && forall|p: PKey, t: usize| #[trigger] w.before.contains((p, t)) ==> t < a.logical_tick }
spec fn told_of(m: Map<PKey, WatchedEntry>, told: Known) -> bool { forall|p: PKey| #[trigger] told.dom().contains(p) ==> m.dom().contains(p) }
spec fn inv(a: NotifyActor, w: World) -> bool { told_of(a.watched_entries@, w.told) && all_watched(a.watched_entries@, a.watcher) && all_wait(a.watched_entries@, w) && all_known(a.watched_entries@, w.told) && all_aged(a.watched_entries@, a.lifetime) && all_told(a) }
/// a removal or truncation, which may be momentary
spec fn lapse(old: Held, new: Held) -> bool { match new { Err(e) => e is NotFound || e is Other, Ok(t) => old is Ok && t.len() == 0 } }
/// the file is no more where it was
spec fn lost(k: EventKind) -> bool { k == EventKind::Remove(RemoveKind::File) || k == EventKind::Modify(ModifyKind::Name(RenameMode::From)) }
/// no file that was known is told to be removed
spec fn quiet(m: Map<PKey, WatchedEntry>, t0: Known, t1: Known) -> bool {
    forall|p: PKey| #[trigger] t1.dom().contains(p) && !(t0.dom().contains(p) && t0[p] == t1[p]) ==> m.dom().contains(p) && (m[p].prev is Some ==> !(t1[p] matches Err(e) && (e is NotFound || e is Other)))
}
/// C27: with no recheck to come, the consumer knows what each watched file was when it was read last
proof fn settled(a: NotifyActor, w: World, p: PKey)
    requires inv(a, w), a.watcher is Some, a.watched_entries@.dom().contains(p), forall|t: usize| !w.queue.contains((p, t))
    ensures w.told.dom().contains(p), w.read.dom().contains(p), w.told[p] == w.read[p]
{}
enum NotifyMessage { Settle, SyncDependency(Box<Vec<Path>>), UpstreamUpdate(UpstreamUpdateEvent) }
use NotifyMessage::*;
enum ActorEvent { ReCheck(UndeterminedNotifyEvent), Message(Option<NotifyMessage>), NotifyEvent(Result<Event, VxErr>) }
fn vx_tick(n: &mut usize) requires *old(n) < usize::MAX ensures *final(n) == *old(n) + 1 { *n = *n + 1; }
impl NotifyActor {
    #[verifier::external_body]
    fn vx_select(&mut self, Tracked(w): Tracked<&mut World>) -> (r: ActorEvent)
        ensures *final(self) == *old(self), final(self).logical_tick < usize::MAX, final(self).lifetime < usize::MAX,
            r matches ActorEvent::ReCheck(e) ==> old(w).queue.contains((pk(e.path@), e.at_logical_tick)) && *final(w) == (World { queue: old(w).queue.remove((pk(e.path@), e.at_logical_tick)), before: old(w).queue.remove((pk(e.path@), e.at_logical_tick)), ..*old(w) }),
            r is NotifyEvent ==> final(self).watcher is Some,
            !(r is ReCheck) ==> *final(w) == (World { before: old(w).queue, ..*old(w) }) { unimplemented!() }
    /// the consumer gets the events in the order they are sent
    #[verifier::external_body]
    fn vx_tell(&mut self, e: FilesystemEvent, Tracked(w): Tracked<&mut World>)
        // an unchanged file is not told again
        requires old(self).watcher is Some ==> news(gone(old(w).told, changes(e).removes@), changes(e).inserts@)
        ensures *final(self) == *old(self), *final(w) == (World { told: after(old(w).told, changes(e)), ups: ups_after(old(w).ups, e), ..*old(w) }) { unimplemented!() }
//@fn crates/tinymist-project/src/watch.rs NotifyActor::notify_entry_update C27
//@world Tracked(w): Tracked<&mut World>
//@ret r
    requires all_wait(old(self).watched_entries@, *old(w)), timely(*old(self), *old(w))
    ensures ({
        let p = pk(path@); let m0 = old(self).watched_entries@; let m1 = final(self).watched_entries@;
        &&& timely(*final(self), *final(w))
        &&& all_wait(m1, *final(w)) && final(w).told == old(w).told && final(self).lifetime == old(self).lifetime && final(self).watcher == old(self).watcher && final(w).files == old(w).files && final(w).failed == old(w).failed
        &&& m1.dom() == m0.dom() && forall|q: PKey| q != p && m0.dom().contains(q) ==> #[trigger] m1[q] == m0[q]
        &&& final(w).ups == old(w).ups && final(w).reads == (if m0.dom().contains(p) { old(w).reads.insert(p) } else { old(w).reads })
        &&& forall|q: PKey| q != p ==> (#[trigger] final(w).read.dom().contains(q) <==> old(w).read.dom().contains(q)) && final(w).read[q] == old(w).read[q]
        &&& !m0.dom().contains(p) ==> r is None
        &&& m0.dom().contains(p) ==> m1[p].lifetime == m0[p].lifetime && m1[p].seen == m0[p].seen && m1[p].watching == m0[p].watching && m1[p].prev is Some && final(w).read.dom().contains(p) && {
            match r {
                // the change is to be told: it is what was read, and it is a change
                Some(f) => pk(f.0@) == p && held(f.1) == held(m1[p].prev->0) && held(f.1) == final(w).read[p] && (m0[p].prev is Some ==> held(m0[p].prev->0) != held(f.1) && !lapse(held(m0[p].prev->0), held(f.1))),
                None => m1[p].prev == m0[p].prev,
            }
        }
    })
//@end
//@fn crates/tinymist-project/src/watch.rs NotifyActor::notify_event C27
//@world Tracked(w): Tracked<&mut World>
    requires inv(*old(self), *old(w)), timely(*old(self), *old(w)), old(self).watcher is Some
    ensures inv(*final(self), *final(w)), timely(*final(self), *final(w)), final(self).watched_entries@.dom() == old(self).watched_entries@.dom(), final(w).ups == old(w).ups,
        // every watched file that the event is about is read
        forall|i: int| 0 <= i < event.paths@.len() && old(self).watched_entries@.dom().contains(pk((#[trigger] event.paths@[i])@)) ==> final(w).reads.count(pk(event.paths@[i]@)) > old(w).reads.count(pk(event.paths@[i]@)),
        quiet(old(self).watched_entries@, old(w).told, final(w).told),
        // the watch of a removed file is over
        lost(event.kind) ==> forall|i: int| 0 <= i < event.paths@.len() && old(self).watched_entries@.dom().contains(pk((#[trigger] event.paths@[i])@)) ==> !final(self).watched_entries@[pk(event.paths@[i]@)].watching
//@entry
    broadcast use sets;
    let ghost e0 = self.watched_entries@;
    let ghost w0 = *w;
//@loop 0 for
    invariant timely(*self, *w), self.watcher is Some, self.watcher == old(self).watcher, all_watched(self.watched_entries@, self.watcher), vx_it0.all().len() == event.paths@.len(), forall|i: int| 0 <= i < event.paths@.len() ==> *(#[trigger] vx_it0.all()[i]) == event.paths@[i], 0 <= vx_it0.pos() <= vx_it0.all().len(),
        changeset.removes@.len() == 0, w.told == w0.told, w.ups == w0.ups, all_wait(self.watched_entries@, *w), all_known(self.watched_entries@, came(w.told, changeset.inserts@)), told_of(self.watched_entries@, came(w.told, changeset.inserts@)), all_aged(self.watched_entries@, self.lifetime), all_told(*self),
        self.watcher is Some ==> news(w.told, changeset.inserts@), self.watched_entries@.dom() == e0.dom(), quiet(e0, w0.told, came(w.told, changeset.inserts@)),
        forall|p: PKey| w.reads.count(p) >= w0.reads.count(p),
        forall|i: int| 0 <= i < vx_it0.pos() && e0.dom().contains(pk((#[trigger] event.paths@[i])@)) ==> w.reads.count(pk(event.paths@[i]@)) > w0.reads.count(pk(event.paths@[i]@)),
        forall|p: PKey| #[trigger] e0.dom().contains(p) && e0[p].prev is Some ==> self.watched_entries@[p].prev is Some
    ensures vx_it0.pos() == vx_it0.all().len()
    decreases vx_it0.all().len() - vx_it0.pos()
//@loopstart 0
    broadcast use sets;
//@before 1
    let ghost w1 = *w;
//@loop 1 for
    invariant timely(*self, *w), *w == w1, vx_it1.all().len() == event.paths@.len(), forall|i: int| 0 <= i < event.paths@.len() ==> *(#[trigger] vx_it1.all()[i]) == event.paths@[i],
        all_watched(self.watched_entries@, self.watcher), forall|i: int| 0 <= i < vx_it1.pos() && e0.dom().contains(pk((#[trigger] event.paths@[i])@)) ==> !self.watched_entries@[pk(event.paths@[i]@)].watching,
        0 <= vx_it1.pos() <= vx_it1.all().len(), all_wait(self.watched_entries@, *w), all_known(self.watched_entries@, came(w.told, changeset.inserts@)), told_of(self.watched_entries@, came(w.told, changeset.inserts@)), all_aged(self.watched_entries@, self.lifetime), all_told(*self), self.watched_entries@.dom() == e0.dom(),
        self.watcher is Some ==> news(w.told, changeset.inserts@)
    ensures vx_it1.pos() == vx_it1.all().len()
    decreases vx_it1.all().len() - vx_it1.pos()
//@loopstart 1
    broadcast use sets;
//@end
//@fn crates/tinymist-project/src/watch.rs NotifyActor::update_watches C27
//@world Tracked(w): Tracked<&mut World>
//@ret r
    requires inv(*old(self), *old(w)), timely(*old(self), *old(w)), old(self).lifetime < usize::MAX
    ensures ({
        let c = r->0; let t = if r is Some { after(old(w).told, c) } else { old(w).told };
        &&& timely(*final(self), *final(w)) && inv(*final(self), World { told: t, ..*final(w) }) && final(w).told == old(w).told && final(w).ups == old(w).ups
        &&& final(self).watcher is Some && r is Some ==> news(gone(old(w).told, c.removes@), c.inserts@)
        // every dependency is watched and was read
        &&& forall|i: int| 0 <= i < paths@.len() ==> final(self).watched_entries@.dom().contains(pk((#[trigger] paths@[i])@)) && final(w).reads.count(pk(paths@[i]@)) > old(w).reads.count(pk(paths@[i]@))
        &&& final(self).watcher is Some ==> forall|i: int| 0 <= i < paths@.len() && final(w).files.contains(pk((#[trigger] paths@[i])@)) ==> final(self).watched_entries@[pk(paths@[i]@)].watching || final(w).failed.contains(pk(paths@[i]@))
        // without a watcher the consumer is told what it was
        &&& final(self).watcher is None ==> forall|i: int| 0 <= i < paths@.len() ==> t.dom().contains(pk((#[trigger] paths@[i])@)) && t[pk(paths@[i]@)] == final(w).read[pk(paths@[i]@)]
    })
//@entry
    broadcast use sets;
    let ghost e0 = self.watched_entries@;
    let ghost w0 = *w;
//@loop 0 for
    invariant timely(*self, *w), 0 <= vx_it0.pos() <= vx_it0.all().len(), keys_of(vx_it0.all(), e0), self.watched_entries@.dom() == e0.dom(), *w == w0, self.lifetime == old(self).lifetime + 1, self.watcher == old(self).watcher,
        forall|p: PKey| #[trigger] e0.dom().contains(p) ==> same_but_seen(e0[p], self.watched_entries@[p]),
        forall|i: int| 0 <= i < vx_it0.pos() ==> !self.watched_entries@[(#[trigger] vx_it0.all()[i]).key()].seen
    ensures forall|p: PKey| #[trigger] e0.dom().contains(p) ==> !self.watched_entries@[p].seen
    decreases vx_it0.all().len() - vx_it0.pos()
//@loopstart 0
    broadcast use sets;
//@loop 1 for
    invariant vx_it1.all().len() == paths@.len(), forall|i: int| 0 <= i < paths@.len() ==> *(#[trigger] vx_it1.all()[i]) == paths@[i], 0 <= vx_it1.pos() <= vx_it1.all().len(),
        self.lifetime == old(self).lifetime + 1, self.watcher is Some <==> old(self).watcher is Some, w.told == w0.told, w.ups == w0.ups, forall|p: PKey| w.reads.count(p) >= w0.reads.count(p),
        changeset.removes@.len() == 0, self.watcher is Some ==> news(w.told, changeset.inserts@),
        timely(*self, *w), ok_so_far(*self, *w, changeset.inserts@),
        forall|p: PKey| #[trigger] self.watched_entries@.dom().contains(p) && self.watched_entries@[p].seen ==> done(*self, *w, w0, changeset.inserts@, p),
        forall|j: int| 0 <= j < changeset.inserts@.len() ==> self.watched_entries@.dom().contains(pk((#[trigger] changeset.inserts@[j]).0@)) && self.watched_entries@[pk(changeset.inserts@[j].0@)].seen,
        forall|i: int| 0 <= i < vx_it1.pos() ==> self.watched_entries@.dom().contains(pk((#[trigger] paths@[i])@)) && self.watched_entries@[pk(paths@[i]@)].seen
    ensures vx_it1.pos() == vx_it1.all().len()
    decreases vx_it1.all().len() - vx_it1.pos()
//@loopstart 1
    broadcast use sets;
    let ghost m = self.watched_entries@;
    let ghost ins = changeset.inserts@;
    proof { if vx_it1.pos() < paths@.len() { assert(*vx_it1.all()[vx_it1.pos()] == paths@[vx_it1.pos()]); } }
//@before 2
    let ghost m1 = self.watched_entries@;
    let ghost ins = changeset.inserts@;
    let ghost w1 = *w;
    let ghost a1 = *self;
    broadcast use sets;
//@loop 2 for
    invariant timely(*self, *w), 0 <= vx_it2.pos() <= vx_it2.all().len(), lists(vx_it2.all(), m1), self.lifetime == old(self).lifetime + 1, self.watcher is Some <==> old(self).watcher is Some, all_aged(m1, self.lifetime), *w == w1, changeset.inserts@ == ins,
        forall|p: PKey| #[trigger] m1.dom().contains(p) && m1[p].seen ==> m1[p].lifetime == self.lifetime,
        all_watched(self.watched_entries@, self.watcher),
        self.watcher is Some ==> forall|i: int| vx_it2.pos() <= i < vx_it2.all().len() && (#[trigger] vx_it2.all()[i]).1.watching ==> (self.watcher->0).0@.contains(vx_it2.all()[i].0.key()),
        forall|p: PKey| #[trigger] self.watched_entries@.dom().contains(p) ==> m1.dom().contains(p) && same_but_watching(m1[p], self.watched_entries@[p]),
        forall|p: PKey| #[trigger] self.watched_entries@.dom().contains(p) ==> exists|i: int| 0 <= i < vx_it2.pos() && (#[trigger] vx_it2.all()[i]).0.key() == p,
        forall|p: PKey| #[trigger] is_in(changeset.removes@, p) ==> !self.watched_entries@.dom().contains(p) && exists|i: int| 0 <= i < vx_it2.pos() && (#[trigger] vx_it2.all()[i]).0.key() == p,
        forall|i: int| 0 <= i < vx_it2.pos() ==> self.watched_entries@.dom().contains((#[trigger] vx_it2.all()[i]).0.key()) || is_in(changeset.removes@, vx_it2.all()[i].0.key()),
        forall|i: int| 0 <= i < vx_it2.pos() && (#[trigger] vx_it2.all()[i]).1.seen ==> self.watched_entries@.dom().contains(vx_it2.all()[i].0.key())
    ensures after_retain(m1, self.watched_entries@, changeset.removes@)
    decreases vx_it2.all().len() - vx_it2.pos()
//@loopstart 2
    broadcast use sets;
    let ghost rm = changeset.removes@;
    let ghost n = vx_it2.pos();
//@after 2
    proof { retained(w1.told, m1, self.watched_entries@, changeset.removes@, ins); }
//@end
//@fn crates/tinymist-project/src/watch.rs NotifyActor::invalidate_upstream C27
//@world Tracked(w): Tracked<&mut World>
    requires inv(*old(self), *old(w)), timely(*old(self), *old(w)), old(self).lifetime < usize::MAX
    ensures inv(*final(self), *final(w)), timely(*final(self), *final(w)), final(w).ups == old(w).ups.push(event),
        forall|i: int| 0 <= i < event.invalidates@.len() ==> final(w).reads.count(pk((#[trigger] event.invalidates@[i])@)) > old(w).reads.count(pk(event.invalidates@[i]@))
//@entry
    broadcast use sets;
//@end
//@fn crates/tinymist-project/src/watch.rs NotifyActor::run C27
//@option drop_items
//@macro tokio::select => self.vx_select()
//@rw expr $x += 1 => vx_tick(&mut $x)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sig fn run(&mut self, Tracked(w): Tracked<&mut World>)
    requires inv(*old(self), *old(w)), ticked(*old(self), *old(w))
    ensures inv(*final(self), *final(w)), ticked(*final(self), *final(w))
//@entry
    broadcast use sets;
//@loop 0 loop
    invariant inv(*self, *w), ticked(*self, *w)
//@loopstart 0
    broadcast use sets;
//@end
//@fn crates/tinymist-project/src/watch.rs NotifyActor::recheck_notify_event C27
//@rw expr $a < $b => vx_less($a, $b)
//@rw expr $a - $b => vx_since($a, $b)
//@world Tracked(w): Tracked<&mut World>
//@ret r
    // the event was in the queue
    requires timely(*old(self), *old(w)), event.at_logical_tick < old(self).logical_tick, !old(w).before.contains((pk(event.path@), event.at_logical_tick)), inv(*old(self), World { queue: old(w).queue.insert((pk(event.path@), event.at_logical_tick)), ..*old(w) })
    ensures inv(*final(self), *final(w)), timely(*final(self), *final(w)), final(self).watched_entries@.dom() == old(self).watched_entries@.dom(),
        // nothing is told, or what the file is now, if that is news
        final(w).ups == old(w).ups, final(w).told == old(w).told || ({
            let p = pk(event.path@); let e = old(self).watched_entries@[p];
            old(self).watched_entries@.dom().contains(p) && (e.state matches WatchState::EmptyOrRemoval { recheck_at, .. } && recheck_at == event.at_logical_tick)
            && final(w).told == old(w).told.insert(p, final(w).read[p]) && final(w).read[p] != held(e.prev->0) && final(w).queue == old(w).queue
        })
//@entry
    broadcast use gone0, came1, news1;
//@end
}
}
fn main() {}
