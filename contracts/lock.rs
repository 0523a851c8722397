// Unit: the project lock file (C26).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@option chains maps_are_options drop_items
//@rw type String => VString
//@rw type EcoString => VString
//@rw type EcoVec<$t> => Vec<$t>
//@rw type Vec<PathBuf> => Files
//@rw type ImmutPath => Path
//@rw type Arc<Path> => Path
//@rw type serde_json::Value => Value
//@rw type tinymist_std::fs::flock::Filesystem => Filesystem
//@rw type tinymist_std::fs::flock::FileLock => FileLock
//@rw expr std::fs::write($p, $d) => vx_fs_write($p, $d)
//@rw expr drop($x) => vx_drop($x)
//@rw type super::LockFile => LockFile
//@rw type Result<$t> => core::result::Result<$t, VxErr>
//@rw expr tinymist_std::fs::flock::Filesystem::new($x) => Filesystem::new($x)
//@rw expr Filesystem::new($x) => Filesystem::new($x)
//@rw expr $x.context($_list) => vx_ctx($x)
//@rw expr $x.context_ut($_list) => vx_ctx($x)
//@rw expr $x.with_context($_list) => vx_ctx($x)
//@rw expr $x.log_error($_list) => vx_log($x)
//@rw expr toml::from_str::<LockFileCompat>($x) => vx_parse($x)
//@rw expr std::str::from_utf8($x) => vx_utf8($x)
//@rw expr semver::Version::parse($x) => vx_semver($x)
//@rw expr $x.trim() => vx_trim($x)
//@rw expr $x.sort_by($_list) => vx_permute(&mut $x)
//@rw expr $x.sort_by_key($_list) => vx_permute(&mut $x)
//@rw expr $x.sort_by_cached_key($_list) => vx_permute(&mut $x)
//@rw expr $x.sort_unstable_by($_list) => vx_permute(&mut $x)
//@rw expr $x.font_paths().iter() => $x.font_paths()
//@rw expr $x.iter() => &$x
//@rw expr $x.clone() => vx_clone(&$x)
//@rw expr f($x) => f.run($x)
//@rw expr $x.to_owned() => vx_owned($x)
//@rw expr unix_slash($x) => vx_slash($x)
//@rw expr tinymist_std::hash::hash128($x) => vx_hash($x)
//@rw expr dirs::cache_dir() => vx_cache_dir()
//@rw expr std::fs::create_dir_all($x) => vx_mkdirs($x)
//@rw expr serde_json::to_string($x) => vx_json($x)
//@rw expr tinymist_std::fs::paths::write_atomic($p, $d) => vx_write_atomic($p, $d)
//@rw expr $x.into() => vx_into($x)
//@rw expr $x.as_bytes() => vx_bytes(&$x)
//@rw expr $a == $b => vx_eq(&$a, &$b)
//@rw expr $a != $b => !vx_eq(&$a, &$b)
//@rw expr super::LockFile::update($r, |$l| $b) => { let mut vx_l = vx_begin($r); let $l = &mut vx_l; let vx_r = $b; vx_end(vx_l, vx_r) }
//@rw expr LockFile::update($r, |$l| $b) => { let mut vx_l = vx_begin($r); let $l = &mut vx_l; let vx_r = $b; vx_end(vx_l, vx_r) }
//@rw expr Id::from_world($x) => vx_id_of($x)
//@rw expr ResourcePath::from_user_sys($x) => vx_rp($x)
//@rw expr Path::new($x) => vx_dir($x)
//@macro eco_vec => Vec::new()
//@macro bail => return Err(vx_err())
//@thread open_rw_exclusive_create open_rw_shared_create open_ro_shared read_to_end set_len seek write_all vx_begin vx_end
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
uninterp spec fn vx_vac(k: int) -> bool;
fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
fn vx_panic<T>() -> T requires false { unimplemented!() }
//@include coll.rs
#[derive(Debug)]
struct VxErr;
#[verifier::external_body]
fn vx_err() -> (r: VxErr) { unimplemented!() }
#[verifier::external_body]
fn vx_format() -> VString { unimplemented!() }
#[verifier::external_body]
fn vx_log<T>(x: Result<T, VxErr>) -> Option<T> { unimplemented!() }
trait VxCtx { type T; spec fn okv(self) -> Option<Self::T>; }
impl<T, E> VxCtx for Result<T, E> { type T = T; spec fn okv(self) -> Option<T> { match self { Ok(t) => Some(t), Err(_) => None } } }
impl<T> VxCtx for Option<T> { type T = T; spec fn okv(self) -> Option<T> { self } }
#[verifier::external_body]
fn vx_ctx<C: VxCtx>(x: C) -> (r: Result<C::T, VxErr>) ensures r is Ok <==> x.okv() is Some, r is Ok ==> x.okv() == Some(r->Ok_0) { unimplemented!() }
// ---- texts and names --------------------------------------------------------------------
type Name = Seq<char>;
trait VxKey { spec fn k(&self) -> Name; }
impl VxKey for str { spec fn k(&self) -> Name { self@ } }
impl VxKey for VString { spec fn k(&self) -> Name { self@ } }
impl VxKey for Id { spec fn k(&self) -> Name { self@ } }
impl<T: VxKey + ?Sized> VxKey for &T { spec fn k(&self) -> Name { (**self).k() } }
#[verifier::external_body]
fn vx_eq<A: VxKey, B: VxKey>(a: &A, b: &B) -> (r: bool) ensures r == (a.k() == b.k()) { unimplemented!() }
#[verifier::external_body]
struct VString { x: u8 }
impl VString { uninterp spec fn view(&self) -> Name; }
#[verifier::external_body]
struct Id { x: u8 }
impl Id { uninterp spec fn view(&self) -> Name; }
#[verifier::external_body]
fn vx_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body]
struct Path { x: u8 }
#[verifier::external_body]
fn vx_owned(x: &Path) -> (r: Path) ensures r == *x { unimplemented!() }
#[verifier::external_body]
struct ResourcePath { x: u8 }
#[verifier::external_body]
struct ProjectTask { x: u8 }
#[verifier::external_body]
struct Files { x: u8 }
/// what is kept for other tools in the cache directory is no part of the lock
#[verifier::external_body]
struct CacheDir { x: u8 }
impl CacheDir { #[verifier::external_body] fn join<T>(&self, t: T) -> CacheDir { unimplemented!() } }
#[verifier::external_body]
fn vx_cache_dir() -> Option<CacheDir> { unimplemented!() }
#[verifier::external_body]
fn vx_mkdirs(p: &CacheDir) -> Result<(), VxErr> { unimplemented!() }
#[verifier::external_body]
fn vx_write_atomic(p: CacheDir, d: VString) -> Result<(), VxErr> { unimplemented!() }
#[verifier::external_body]
fn vx_json<T>(p: &T) -> (r: Result<VString, VxErr>) ensures r is Ok { unimplemented!() }
#[verifier::external_body]
fn vx_hash<T>(p: &T) -> u128 { unimplemented!() }
#[verifier::external_body]
fn vx_slash(p: &Path) -> VString { unimplemented!() }
#[verifier::external_body]
fn vx_into(p: VString) -> (r: VString) ensures r == p { unimplemented!() }
// ---- the entries ---------------------------------------------------------------------------
//@type crates/tinymist-project/src/model.rs LockFile
//@type crates/tinymist-project/src/model.rs LockFileCompat
//@type crates/tinymist-project/src/model.rs ProjectInput
//@type crates/tinymist-project/src/model.rs ProjectRoute
//@type crates/tinymist-project/src/model.rs ProjectPathMaterial
//@type crates/tinymist-task/src/model.rs ApplyProjectTask
//@type crates/tinymist-project/src/lock.rs LockUpdate
//@type crates/tinymist-project/src/lock.rs LockFileUpdate
//@const crates/tinymist-project/src/model.rs LOCK_VERSION
//@const crates/tinymist-project/src/lock.rs LOCK_FILENAME
// ---- a compiled world -----------------------------------------------------------------------
struct LspWorldX;
struct LspWorld { font_resolver: Fonts, registry: Registry, x: LspWorldX }
struct Fonts { x: u8 }
struct Registry { x: u8 }
#[verifier::external_body]
struct MainFile { x: u8 }
#[verifier::external_body]
struct Found { x: u8 }
uninterp spec fn id_of(w: &LspWorld) -> Option<Id>;
impl LspWorld {
    #[verifier::external_body]
    fn main(&self) -> MainFile { unimplemented!() }
    #[verifier::external_body]
    fn path_for_id(&self, m: MainFile) -> Result<Found, VxErr> { unimplemented!() }
}
impl Found {
    #[verifier::external_body]
    fn as_path(&self) -> &Path { unimplemented!() }
}
#[verifier::external_body]
fn vx_id_of(w: &LspWorld) -> (r: Option<Id>) ensures r == id_of(w) { unimplemented!() }
#[verifier::external_body]
fn vx_dir(t: &str) -> &Path { unimplemented!() }
#[verifier::external_body]
fn vx_rp(p: &Path) -> ResourcePath { unimplemented!() }
impl Fonts {
    #[verifier::external_body]
    fn font_paths(&self) -> &Vec<Path> { unimplemented!() }
}
impl Registry {
    #[verifier::external_body]
    fn package_path(&self) -> Option<&Path> { unimplemented!() }
    #[verifier::external_body]
    fn package_cache_path(&self) -> Option<&Path> { unimplemented!() }
}
impl ProjectPathMaterial {
    #[verifier::external_body]
    fn from_deps(d: Id, f: Vec<Path>) -> ProjectPathMaterial { unimplemented!() }
}
trait Entry { spec fn key(&self) -> Name; }
impl Entry for ProjectInput { spec fn key(&self) -> Name { self.id@ } }
impl Entry for ApplyProjectTask { spec fn key(&self) -> Name { self.id@ } }
impl Entry for ProjectRoute { spec fn key(&self) -> Name { self.id@ } }
/// what a lock holds
ghost struct Lf { docs: Seq<ProjectInput>, tasks: Seq<ApplyProjectTask>, routes: Seq<ProjectRoute> }
impl LockFile { spec fn v(&self) -> Lf { Lf { docs: self.document@, tasks: self.task@, routes: self.route@ } } }
spec fn empty_lf() -> Lf { Lf { docs: Seq::empty(), tasks: Seq::empty(), routes: Seq::empty() } }
/// the entries of other identities, in order
spec fn others<T: Entry>(s: Seq<T>, id: Name) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { s } else if s.last().key() == id { others(s.drop_last(), id) } else { others(s.drop_last(), id).push(s.last()) }
}
spec fn uniq<T: Entry>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].key() != #[trigger] s[j].key() }
/// `e` is there, and is all there is of its identity
spec fn only_one<T: Entry>(s: Seq<T>, e: T) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == e && forall|j: int| 0 <= j < s.len() && #[trigger] s[j].key() == e.key() ==> j == i
}
/// `e` replaces the entry of its identity, or is added; the others stay
spec fn put<T: Entry>(a: Seq<T>, b: Seq<T>, e: T) -> bool {
    &&& others(b, e.key()) == others(a, e.key())
    &&& uniq(a) ==> only_one(b, e) && uniq(b)
    &&& b.contains(e)
}
proof fn others_same<T: Entry>(a: Seq<T>, b: Seq<T>, id: Name)
    requires a.len() == b.len(), forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i] == b[i] || (a[i].key() == id && b[i].key() == id)
    ensures others(a, id) == others(b, id)
    decreases a.len()
{
    if a.len() > 0 {
        others_same(a.drop_last(), b.drop_last(), id);
        assert(a.last() == a[a.len() - 1] && b.last() == b[b.len() - 1]);
    }
}
/// replacing in place
proof fn put_at<T: Entry>(a: Seq<T>, i: int, e: T)
    requires 0 <= i < a.len(), a[i].key() == e.key()
    ensures put(a, a.update(i, e), e)
{
    let b = a.update(i, e);
    others_same(a, b, e.key());
    assert(b[i] == e);
    if uniq(a) {
        assert forall|j: int| 0 <= j < b.len() && #[trigger] b[j].key() == e.key() implies j == i by { if j != i { assert(a[j].key() == a[i].key()); if j < i {} else {} } }
        assert forall|p: int, q: int| 0 <= p < q < b.len() implies #[trigger] b[p].key() != #[trigger] b[q].key() by { assert(a[p].key() != a[q].key()); }
    }
}
/// adding at the end
proof fn put_end<T: Entry>(a: Seq<T>, b: Seq<T>, e: T)
    requires others(b, e.key()) == others(a, e.key()), forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i].key() != e.key(), uniq(a) ==> uniq(b)
    ensures put(a, b.push(e), e)
{
    let c = b.push(e);
    assert(c.drop_last() =~= b);
    assert(c.last() == e);
    assert(c[b.len() as int] == e);
    assert forall|j: int| 0 <= j < c.len() && #[trigger] c[j].key() == e.key() implies j == b.len() by { if j < b.len() { assert(c[j] == b[j]); } }
    if uniq(a) {
        assert forall|p: int, q: int| 0 <= p < q < c.len() implies #[trigger] c[p].key() != #[trigger] c[q].key() by { if q < b.len() { assert(c[p] == b[p] && c[q] == b[q]); } else { assert(c[p] == b[p]); } }
    }
}
/// the place of an identity, or that it is not there
spec fn found_at<T: Entry>(o: Option<usize>, a: Seq<T>, k: Name) -> bool {
    match o { Some(p) => p < a.len() && a[p as int].key() == k, None => forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).key() != k }
}
spec fn found<T: Entry>(o: Option<&T>, a: Seq<T>, k: Name) -> bool {
    match o { Some(p) => a.contains(*p) && p.key() == k, None => forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).key() != k }
}
/// keeping a part of what was gone through
spec fn left<T: Entry>(b: Seq<T>, a: Seq<T>, id: Name) -> bool {
    &&& others(b, id) == others(a, id)
    &&& forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i].key() != id
    &&& forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i])
    &&& uniq(a) ==> uniq(b)
}
proof fn left_step<T: Entry>(b: Seq<T>, a: Seq<T>, n: int, id: Name, b2: Seq<T>)
    requires 0 <= n < a.len(), left(b, a.take(n), id), b2 == if a[n].key() != id { b.push(a[n]) } else { b }
    ensures left(b2, a.take(n + 1), id)
{
    let c = a.take(n + 1);
    assert(c.drop_last() =~= a.take(n));
    assert(c.last() == a[n]);
    assert(c[n] == a[n]);
    assert forall|i: int| 0 <= i < b.len() implies c.contains(#[trigger] b[i]) by { let k = choose|k: int| 0 <= k < n && a.take(n)[k] == b[i]; assert(c[k] == b[i]); }
    if a[n].key() != id {
        assert(b2.drop_last() =~= b);
        assert forall|i: int| 0 <= i < b2.len() implies c.contains(#[trigger] b2[i]) by { if i < b.len() { assert(b2[i] == b[i]); } else { assert(c[n] == b2[i]); } }
    }
    if uniq(c) {
        assert forall|i: int, j: int| 0 <= i < j < a.take(n).len() implies #[trigger] a.take(n)[i].key() != #[trigger] a.take(n)[j].key() by { assert(c[i].key() != c[j].key()); }
        assert forall|i: int, j: int| 0 <= i < j < b2.len() implies #[trigger] b2[i].key() != #[trigger] b2[j].key() by {
            if j < b.len() { assert(b2[i] == b[i] && b2[j] == b[j]); }
            else {
                assert(b2[i] == b[i]);
                let k = choose|k: int| 0 <= k < n && a.take(n)[k] == b[i];
                assert(c[k].key() != c[n].key());
            }
        }
    }
}
/// std's stable sort, by whatever order
spec fn resorted<T>(a: Seq<T>, b: Seq<T>) -> bool { b.to_multiset() == a.to_multiset() }
#[verifier::external_body]
fn vx_permute<T>(v: &mut Vec<T>) ensures resorted(old(v)@, final(v)@) { unimplemented!() }
/// retain: everything taken out, to be put back if it stays
trait VxRetain<T> { fn vx_take_all(&mut self) -> VxIt<T>; fn vx_put_back(&mut self, t: T); }
impl<T> VxRetain<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_take_all(&mut self) -> (r: VxIt<T>) ensures r.pos() == 0, r.all() == old(self)@, final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn vx_put_back(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
}
// ---- the file --------------------------------------------------------------------------------
type Bytes = Seq<u8>;
/// `data`: what the file holds; `seen`: what it held when its lock was granted; `writes`: how often it was written to since the start;
/// `runs`: the changes a commit asked for, each as the lock it was given and the one it made
tracked struct World { ghost data: Bytes, ghost seen: Bytes, ghost writes: nat, ghost runs: Seq<(Lf, Lf, bool)> }
spec fn wrote(o: World, n: World, d: Bytes) -> bool { n.data == d && n.writes == o.writes + 1 && n.seen == o.seen && n.runs == o.runs }
#[verifier::external_body]
struct Filesystem { x: u8 }
impl Filesystem {
    #[verifier::external_body]
    fn new(p: Path) -> (r: Filesystem) { unimplemented!() }
    /// an exclusive lock (C13); the content may have changed until it is granted
    #[verifier::external_body]
    fn open_rw_exclusive_create(&self, p: &str, msg: &str, Tracked(w): Tracked<&mut World>) -> (r: Result<FileLock, VxErr>)
        ensures final(w).writes == old(w).writes, final(w).runs == old(w).runs, final(w).seen == final(w).data,
            r is Ok ==> (r->Ok_0).pos() == 0 && (r->Ok_0).ex() { unimplemented!() }
    #[verifier::external_body]
    fn open_ro_shared(&self, p: &str, msg: &str, Tracked(w): Tracked<&mut World>) -> (r: Result<FileLock, VxErr>)
        ensures final(w).writes == old(w).writes, final(w).runs == old(w).runs, final(w).seen == final(w).data,
            r is Ok ==> (r->Ok_0).pos() == 0 && !(r->Ok_0).ex() { unimplemented!() }
}
impl Filesystem {
    #[verifier::external_body]
    fn open_rw_shared_create(&self, p: &str, msg: &str, Tracked(w): Tracked<&mut World>) -> (r: Result<FileLock, VxErr>)
        ensures final(w).writes == old(w).writes, final(w).runs == old(w).runs, final(w).seen == final(w).data,
            r is Ok ==> (r->Ok_0).pos() == 0 && !(r->Ok_0).ex() { unimplemented!() }
}
enum SeekFrom { Start(u64), End(i64), Current(i64) }
#[verifier::external_body]
struct FileLock { x: u8 }
#[verifier::external_body]
struct File { x: u8 }
impl FileLock {
    uninterp spec fn pos(&self) -> int;
    uninterp spec fn ex(&self) -> bool;
    #[verifier::external_body]
    fn read_to_end(&mut self, b: &mut Vec<u8>, Tracked(w): Tracked<&mut World>) -> (r: Result<usize, VxErr>)
        ensures *final(w) == *old(w), final(self).ex() == old(self).ex(),
            r is Ok && 0 <= old(self).pos() <= old(w).data.len() ==> final(b)@ == old(b)@ + old(w).data.skip(old(self).pos()) && final(self).pos() == old(w).data.len() { unimplemented!() }
    #[verifier::external_body]
    fn file(&self) -> (r: &File) ensures r.ex() == self.ex() { unimplemented!() }
    #[verifier::external_body]
    fn path(&self) -> (r: &Path) { unimplemented!() }
    #[verifier::external_body]
    fn parent(&self) -> (r: &Path) { unimplemented!() }
    #[verifier::external_body]
    fn seek(&mut self, s: SeekFrom, Tracked(w): Tracked<&mut World>) -> (r: Result<u64, VxErr>)
        ensures *final(w) == *old(w), final(self).ex() == old(self).ex(),
            r is Ok ==> match s {
                SeekFrom::Start(n) => final(self).pos() == n,
                SeekFrom::End(n) => final(self).pos() == old(w).data.len() + n,
                SeekFrom::Current(n) => final(self).pos() == old(self).pos() + n,
            } { unimplemented!() }
    /// only with the exclusive lock
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxErr>)
        requires old(self).ex()
        ensures final(self).ex(), exists|d: Bytes| #[trigger] wrote(*old(w), *final(w), d),
            r is Ok && 0 <= old(self).pos() <= old(w).data.len() ==> final(w).data == written(old(w).data, old(self).pos(), b@) && final(self).pos() == old(self).pos() + b@.len() { unimplemented!() }
}
impl File {
    uninterp spec fn ex(&self) -> bool;
    #[verifier::external_body]
    fn set_len(&self, n: u64, Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxErr>)
        requires self.ex()
        ensures r is Err ==> *final(w) == *old(w), r is Ok ==> wrote(*old(w), *final(w), sized(old(w).data, n as int)) { unimplemented!() }
}
fn vx_drop<T>(x: T) {}
/// past the lock: nothing may be written that way
#[verifier::external_body]
fn vx_fs_write<D>(p: Path, d: D) -> (r: Result<(), VxErr>) requires false { unimplemented!() }
spec fn sized(d: Bytes, n: int) -> Bytes { if n <= d.len() { d.take(n) } else { d + Seq::new((n - d.len()) as nat, |i: int| 0u8) } }
spec fn written(d: Bytes, pos: int, b: Bytes) -> Bytes { d.take(pos) + b + (if pos + b.len() < d.len() { d.skip(pos + b.len()) } else { Seq::empty() }) }
// ---- texts of locks (the toml, serde and semver crates) -----------------------------------------------
uninterp spec fn utf8(b: Bytes) -> Option<Name>;
uninterp spec fn bytes(t: Name) -> Bytes;
uninterp spec fn blank(t: Name) -> bool;
uninterp spec fn parsed(t: Name) -> Option<LockFileCompat>;
/// what is written for a lock
uninterp spec fn show(l: Lf) -> Name;
#[verifier::external_body]
fn vx_utf8(b: &Vec<u8>) -> (r: Result<&str, VxErr>) ensures r is Ok <==> utf8(b@) is Some, forall|t: Name| #[trigger] bytes(t) == b@ ==> utf8(b@) == Some(t), r is Ok ==> utf8(b@) == Some((r->Ok_0)@) && bytes((r->Ok_0)@) == b@ { unimplemented!() }
#[verifier::external_body]
fn vx_bytes(t: &VString) -> (r: &[u8]) ensures r@ == bytes(t@) { unimplemented!() }
#[verifier::external_body]
struct Trimmed { x: u8 }
impl Trimmed {
    uninterp spec fn of(&self) -> Name;
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == blank(self.of()) { unimplemented!() }
}
#[verifier::external_body]
fn vx_trim(t: &str) -> (r: Trimmed) ensures r.of() == t@ { unimplemented!() }
#[verifier::external_body]
fn vx_parse(t: &str) -> (r: Result<LockFileCompat, VxErr>) ensures r is Ok <==> parsed(t@) is Some, r is Ok ==> parsed(t@) == Some(r->Ok_0) { unimplemented!() }
#[verifier::external_body]
struct Value { x: u8 }
impl Value {
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&Value>) { unimplemented!() }
    #[verifier::external_body]
    fn as_str(&self) -> (r: Option<&str>) { unimplemented!() }
}
#[verifier::external_body]
struct Semver { x: u8 }
impl Semver {
    #[verifier::external_body]
    fn cmp(&self, o: &Semver) -> (r: Ordering) ensures r == sv_cmp(*self, *o) { unimplemented!() }
}
uninterp spec fn semver(t: Name) -> Option<Semver>;
uninterp spec fn sv_cmp(a: Semver, b: Semver) -> Ordering;
#[verifier::external_body]
broadcast proof fn sv_refl(a: Semver) ensures #[trigger] sv_cmp(a, a) == Ordering::Equal { }
#[verifier::external_body]
fn vx_semver(t: &str) -> (r: Result<Semver, VxErr>) ensures r is Ok <==> semver(t@) is Some, r is Ok ==> semver(t@) == Some(r->Ok_0) { unimplemented!() }
spec fn cmp_of(a: Name, b: Name) -> Option<Ordering> { match (semver(a), semver(b)) { (Some(x), Some(y)) => Some(sv_cmp(x, y)), _ => None } }
/// the lock a text means; none if it cannot be decoded, or is of a version that is newer or cannot be compared
spec fn state_of(t: Name) -> Option<Lf> {
    if blank(t) { Some(empty_lf()) } else {
        match parsed(t) { Some(LockFileCompat::Version010Beta0(l)) => if cmp_of(LOCK_VERSION@, LOCK_VERSION@) == Some(Ordering::Equal) || cmp_of(LOCK_VERSION@, LOCK_VERSION@) == Some(Ordering::Less) { Some(l.v()) } else { None }, _ => None }
    }
}
/// the change that is asked for
trait Update: Sized {
    spec fn eff(self, a: Lf, b: Lf) -> bool;
    fn run(self, l: &mut LockFile) -> (r: Result<(), VxErr>) ensures r is Ok ==> self.eff(old(l).v(), final(l).v());
}
/// what a lock's bytes mean
spec fn held(d: Bytes) -> Option<Lf> { if utf8(d) is Some { state_of(utf8(d)->0) } else { None } }
/// the change was made, and is not what is there
spec fn changed<U: Update>(f: U, s: Lf, d: Bytes) -> bool { exists|mid: Lf, end: Lf| #![trigger sorted_lf(mid, end), f.eff(s, mid)] f.eff(s, mid) && sorted_lf(mid, end) && bytes(show(end)) != d }
/// the file holds what the change makes
spec fn made<U: Update>(f: U, s: Lf, d: Bytes) -> bool { exists|mid: Lf, end: Lf| #![trigger sorted_lf(mid, end), f.eff(s, mid)] f.eff(s, mid) && sorted_lf(mid, end) && d == bytes(show(end)) }
spec fn sorted_lf(a: Lf, b: Lf) -> bool { resorted(a.docs, b.docs) && resorted(a.tasks, b.tasks) && a.routes == b.routes }
/// one change of a commit
spec fn step(a: Lf, u: LockUpdate, b: Lf) -> bool {
    match u {
        LockUpdate::Input(d) => put(a.docs, b.docs, d) && b.tasks == a.tasks && b.routes == a.routes,
        LockUpdate::Task(t) => put(a.tasks, b.tasks, t) && b.docs == a.docs && b.routes == a.routes,
        LockUpdate::Route(t) => put(a.routes, b.routes, t) && b.docs == a.docs && b.tasks == a.tasks,
        LockUpdate::Material(_) => b == a,
    }
}
/// all of them, in order
spec fn steps(a: Lf, us: Seq<LockUpdate>, b: Lf) -> bool {
    exists|ss: Seq<Lf>| #[trigger] chain(ss, us) && ss[0] == a && ss.last() == b
}
spec fn chain(ss: Seq<Lf>, us: Seq<LockUpdate>) -> bool { ss.len() == us.len() + 1 && forall|i: int| 0 <= i < us.len() ==> step(#[trigger] ss[i], us[i], ss[i + 1]) }
/// LockFile::update with a closure: its body, for any lock it may be given
#[verifier::external_body]
fn vx_begin(r: &Path, Tracked(w): Tracked<&mut World>) -> (l: LockFile)
    ensures final(w).runs == old(w).runs.push((l.v(), l.v(), false)) { unimplemented!() }
#[verifier::external_body]
fn vx_end(l: LockFile, r: Result<(), VxErr>, Tracked(w): Tracked<&mut World>) -> (res: Result<(), VxErr>)
    requires old(w).runs.len() > 0
    ensures final(w).runs == old(w).runs.drop_last().push((old(w).runs.last().0, l.v(), r is Ok)) { unimplemented!() }

impl LockFile {
//@fn crates/tinymist-project/src/lock.rs LockFile::replace_document C26
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@entry
    let ghost a = self.document@;
    let ghost n = self.document.len();
    let ghost e = input;
    proof {
        assert forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).key() == e.key() implies put(a, a.update(i, e), e) by { put_at(a, i, e); }
        if forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).key() != e.key() { put_end(a, a, e); }
    }
//@loop 0
    invariant_except_break forall|i: int| 0 <= i < vx_it0.pos() ==> (#[trigger] a[i]).key() != e.key(),
    invariant vx_it0.all().len() == a.len(), forall|i: int| 0 <= i < a.len() ==> *(#[trigger] vx_it0.all()[i]) == a[i], 0 <= vx_it0.pos() <= a.len(),
        vx_pos0 == vx_it0.pos(), a.len() == n, vx_out0 is None, self.document@ == a, id@ == e.key(),
    ensures found_at(vx_out0, a, e.key()),
    decreases a.len() - vx_it0.pos()
//@spec
ensures put(old(self).document@, final(self).document@, input), final(self).task@ == old(self).task@, final(self).route@ == old(self).route@,
//@end
//@fn crates/tinymist-project/src/lock.rs LockFile::replace_task C26
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@entry
    let ghost a = self.task@;
    let ghost n = self.task.len();
    let ghost e = task;
    proof {
        assert forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).key() == e.key() implies put(a, a.update(i, e), e) by { put_at(a, i, e); }
        if forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).key() != e.key() { put_end(a, a, e); }
    }
//@loop 0
    invariant_except_break forall|i: int| 0 <= i < vx_it0.pos() ==> (#[trigger] a[i]).key() != e.key(),
    invariant vx_it0.all().len() == a.len(), forall|i: int| 0 <= i < a.len() ==> *(#[trigger] vx_it0.all()[i]) == a[i], 0 <= vx_it0.pos() <= a.len(),
        vx_pos0 == vx_it0.pos(), a.len() == n, vx_out0 is None, self.task@ == a, id@ == e.key(),
    ensures found_at(vx_out0, a, e.key()),
    decreases a.len() - vx_it0.pos()
//@spec
ensures put(old(self).task@, final(self).task@, task), final(self).document@ == old(self).document@, final(self).route@ == old(self).route@,
//@end
//@fn crates/tinymist-project/src/lock.rs LockFile::replace_route C26
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@entry
    let ghost a = self.route@;
    let ghost e = route;
    proof { assert(a.take(0) =~= Seq::empty()); assert(a.take(a.len() as int) =~= a); }
//@loop 0
    invariant vx_it0.all() == a, 0 <= vx_it0.pos() <= a.len(), id@ == e.key(), left(self.route@, a.take(vx_it0.pos()), e.key()), route == e, self.task@ == old(self).task@, self.document@ == old(self).document@,
    ensures vx_it0.pos() == a.len(),
    decreases a.len() - vx_it0.pos()
//@loopstart 0
    let ghost b = self.route@;
//@loopend 0
    proof { left_step(b, a, vx_it0.pos() - 1, e.key(), self.route@); }
//@after 0
    proof { put_end(a, self.route@, e); }
//@spec
ensures put(old(self).route@, final(self).route@, route), final(self).document@ == old(self).document@, final(self).task@ == old(self).task@,
//@end
//@fn crates/tinymist-project/src/lock.rs LockFile::get_document C26
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@loop 0
    invariant_except_break forall|i: int| 0 <= i < vx_it0.pos() ==> (#[trigger] self.document@[i]).key() != id@,
    invariant vx_it0.all().len() == self.document@.len(), forall|i: int| 0 <= i < self.document@.len() ==> *(#[trigger] vx_it0.all()[i]) == self.document@[i], 0 <= vx_it0.pos() <= self.document@.len(), vx_out0 is None,
    ensures found(vx_out0, self.document@, id@),
    decreases self.document@.len() - vx_it0.pos()
//@spec
ensures found(r, self.document@, id@),
//@end
//@fn crates/tinymist-project/src/lock.rs LockFile::get_task C26
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@loop 0
    invariant_except_break forall|i: int| 0 <= i < vx_it0.pos() ==> (#[trigger] self.task@[i]).key() != id@,
    invariant vx_it0.all().len() == self.task@.len(), forall|i: int| 0 <= i < self.task@.len() ==> *(#[trigger] vx_it0.all()[i]) == self.task@[i], 0 <= vx_it0.pos() <= self.task@.len(), vx_out0 is None,
    ensures found(vx_out0, self.task@, id@),
    decreases self.task@.len() - vx_it0.pos()
//@spec
ensures found(r, self.task@, id@),
//@end
//@fn crates/tinymist-project/src/lock.rs LockFile::sort C26
//@spec
ensures sorted_lf(old(self).v(), final(self).v()),
//@end
/// what is written (the toml crate): assumed, replayed
#[verifier::external_body]
fn serialize_resolve(&self) -> (r: VString) ensures r@ == show(self.v()) { unimplemented!() }
//@fn crates/tinymist-project/src/lock.rs LockFile::update C26
//@sig fn update<U: Update>(cwd: &Path, f: U, Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxErr>)
//@entry
    broadcast use whole, front, over, sv_refl;
//@spec
ensures
    final(w).runs == old(w).runs,
    ({
        let s = held(final(w).seen);
        // what cannot be decoded, or is newer, is never overwritten
        &&& s is None ==> r is Err && final(w).writes == old(w).writes
        &&& s is Some ==> {
            // nothing is written for a failing change, nor when nothing changes
            &&& final(w).writes == old(w).writes || changed(f, s->0, final(w).seen)
            &&& r is Ok ==> made(f, s->0, final(w).data)
        }
    }),
//@end
//@fn crates/tinymist-project/src/lock.rs LockFile::read C26
//@sig fn read(dir: &Path, Tracked(w): Tracked<&mut World>) -> (r: Result<LockFile, VxErr>)
//@entry
    broadcast use whole, front;
//@spec
ensures final(w).writes == old(w).writes, final(w).data == final(w).seen,
    r is Ok ==> utf8(final(w).seen) is Some && parsed(utf8(final(w).seen)->0) == Some(LockFileCompat::Version010Beta0(r->Ok_0)),
//@end
}
broadcast proof fn whole(d: Bytes) ensures #[trigger] d.skip(0) == d { assert(d.skip(0) =~= d); }
broadcast proof fn front(d: Bytes) ensures #[trigger] (Seq::<u8>::empty() + d) == d { assert(Seq::<u8>::empty() + d =~= d); }
broadcast proof fn over(d: Bytes, b: Bytes) ensures #[trigger] written(sized(d, 0), 0, b) == b { assert(written(sized(d, 0), 0, b) =~= b); }
impl LockFileCompat {
//@fn crates/tinymist-project/src/model.rs LockFileCompat::version C26
//@ret r
//@spec
ensures self is Version010Beta0 ==> r is Ok && (r->Ok_0)@ == LOCK_VERSION@,
//@end
//@fn crates/tinymist-project/src/model.rs LockFileCompat::migrate C26
//@ret r
//@spec
ensures match self { LockFileCompat::Version010Beta0(l) => r is Ok && r->Ok_0 == l, _ => r is Err },
//@end
}
impl ApplyProjectTask {
//@fn crates/tinymist-task/src/model.rs ApplyProjectTask::id C26
//@ret r
//@spec
ensures *r == self.id,
//@end
//@fn crates/tinymist-task/src/model.rs ApplyProjectTask::doc_id C26
//@ret r
//@spec
ensures *r == self.document,
//@end
}
impl LockFileUpdate {
//@fn crates/tinymist-project/src/lock.rs LockFileUpdate::compiled C26
//@attr #[verifier::loop_isolation(false)]
//@ret r
//@loop 0
    invariant 0 <= vx_it0.pos() <= vx_it0.all().len(),
    decreases vx_it0.all().len() - vx_it0.pos()
//@spec
ensures final(self).root == old(self).root,
    r is None ==> final(self).updates@ == old(self).updates@,
    r is Some ==> id_of(world) == r && exists|d: ProjectInput| d.id == r->0 && #[trigger] final(self).updates@ == old(self).updates@.push(LockUpdate::Input(d)),
    id_of(world) is None ==> r is None,
//@end
//@fn crates/tinymist-project/src/lock.rs LockFileUpdate::update_materials C26
//@spec
ensures final(self).root == old(self).root, final(self).updates@.len() == old(self).updates@.len() + 1, final(self).updates@.drop_last() == old(self).updates@, final(self).updates@.last() is Material,
//@end
//@fn crates/tinymist-project/src/lock.rs LockFileUpdate::task C26
//@spec
ensures final(self).updates@ == old(self).updates@.push(LockUpdate::Task(task)), final(self).root == old(self).root,
//@end
//@fn crates/tinymist-project/src/lock.rs LockFileUpdate::route C26
//@spec
ensures final(self).updates@ == old(self).updates@.push(LockUpdate::Route(ProjectRoute { id: doc_id, priority })), final(self).root == old(self).root,
//@end
//@fn crates/tinymist-project/src/lock.rs LockFileUpdate::commit C26
//@sig fn commit(self, Tracked(w): Tracked<&mut World>)
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@entry
    let ghost us = self.updates@;
    let ghost mut ss: Seq<Lf> = Seq::empty();
//@loopinit 0
    proof { ss = seq![l.v()]; }
//@loop 0
    invariant vx_it0.all() == us, 0 <= vx_it0.pos() <= us.len(), ss.len() == vx_it0.pos() + 1, ss.last() == l.v(), ss[0] == w.runs.last().0,
        w.runs.len() == old(w).runs.len() + 1, forall|i: int| 0 <= i < old(w).runs.len() ==> w.runs[i] == old(w).runs[i],
        forall|i: int| 0 <= i < vx_it0.pos() ==> step(#[trigger] ss[i], us[i], ss[i + 1]),
    ensures vx_it0.pos() == us.len(),
    decreases us.len() - vx_it0.pos()
//@loopend 0
    proof { ss = ss.push(l.v()); }
//@after 0
    proof { assert(chain(ss, us)); }
//@spec
ensures final(w).runs.len() == old(w).runs.len() + 1, ({ let g = final(w).runs.last(); steps(g.0, self.updates@, g.1) && g.2 }),
//@end
}
//@fn crates/tinymist-project/src/lock.rs update_lock C26
//@ret r
//@spec
ensures r.root == root, r.updates@.len() == 0,
//@end
struct Version<'a>(&'a str);
impl<'a> Version<'a> {
//@fn crates/tinymist-project/src/lock.rs PartialOrd@Version::partial_cmp C26
//@sig fn partial_cmp(&self, other: &Version) -> (r: Option<Ordering>)
//@option keep_closures
//@spec
ensures r == cmp_of(self.0@, other.0@),
//@end
}
}
fn main() {}
