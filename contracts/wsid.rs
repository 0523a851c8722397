// Unit: workspace identities (C24).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@option fmt_concat slice_match map_option
//@rw type EcoString => &'static str
//@rw type PathBuf => Path
//@rw type ImmutPath => Path
//@rw type TypstFileId => FileId
//@rw type FileResult<$t> => Result<$t, FileError>
//@rw expr EcoString::inline($x) => $x
//@rw expr WorkspaceResolver::WORKSPACE_NS => WORKSPACE_NS
//@rw expr Self::WORKSPACE_NS => WORKSPACE_NS
//@rw expr TypstFileId::new($a, $b) => FileId::new($a, $b)
//@rw expr WORKSPACE_NS.clone() => WORKSPACE_NS
//@rw expr INTERNER.write() => vx_it
//@rw expr INTERNER.read() => vx_it
//@rw expr $x.try_into() => vx_u16($x)
//@rw expr u16::try_from($x) => vx_u16($x)
//@rw expr Path::from($x) => vx_path_buf($x)
//@rw expr ImmutPath::from($x) => vx_path_buf($x)
//@rw expr $x.starts_with($y) => vx_starts($x, $y)
//@rw expr $x.strip_prefix($y) => vx_strip($x, $y)
//@rw expr $x[1..] => vx_tail($x)
//@rw expr $x.parse() => vx_parse($x)
//@rw expr $x.as_str() => $x
//@rw expr $x.clone() => vx_dup_(&$x)
//@rw expr $x.cloned() => vx_dup_opt($x)
//@rw expr $x == $y => vx_eq(&$x, &$y)
//@rw expr $x != $y => !vx_eq(&$x, &$y)
//@thread workspace_id path file_with_parent_root workspace_file rooted_untitled resolve resolve_root path_for_id
//@threadarg vx_it
use vstd::prelude::*;
use vstd::string::*;
use crate::WorkspaceResolution::*;
verus! {
uninterp spec fn vx_vac(k: int) -> bool;
fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }
//@include path_core.rs
//@include path_std.rs
trait VxKey { type K; spec fn key(&self) -> Self::K; }
impl VxKey for str { type K = Seq<char>; spec fn key(&self) -> Seq<char> { self@ } }
impl<'a, T: VxKey + ?Sized> VxKey for &'a T { type K = T::K; spec fn key(&self) -> T::K { (**self).key() } }
impl VxKey for PackageVersion { type K = PackageVersion; spec fn key(&self) -> PackageVersion { *self } }
impl VxKey for WorkspaceId { type K = WorkspaceId; spec fn key(&self) -> WorkspaceId { *self } }
impl VxKey for Path { type K = Seq<Comp>; spec fn key(&self) -> Seq<Comp> { comps(self@) } }
#[verifier::external_body]
fn vx_eq<A: VxKey, B: VxKey<K = A::K>>(a: &A, b: &B) -> (r: bool) ensures r == (a.key() == b.key()) { unimplemented!() }
#[verifier::external_body]
fn vx_lit_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
/// text built at run time (leaked here; only its characters count)
#[verifier::external_body]
fn vx_flit(s: &str) -> (r: &'static str) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vx_fadd(a: &str, b: &str) -> (r: &'static str) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
fn vx_format() -> (r: &'static str) { unimplemented!() }
/// how std prints a number
uninterp spec fn dec(n: u16) -> Seq<char>;
#[verifier::external_body]
fn vx_fdisp(n: &u16) -> (r: &'static str) ensures r@ == dec(*n) { unimplemented!() }
#[derive(Debug)]
struct NumErr { x: u8 }
/// std reads back the numbers it prints
#[verifier::external_body]
fn vx_parse(s: &str) -> (r: Result<u16, NumErr>) ensures forall|n: u16| s@ == #[trigger] dec(n) ==> r == Ok::<u16, NumErr>(n) { unimplemented!() }
#[verifier::external_body]
fn vx_u16(n: usize) -> (r: Result<u16, NumErr>) ensures r is Ok <==> n <= 65535, r is Ok ==> r->Ok_0 == n { unimplemented!() }
spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] s[i] == p[i] }
trait VxPat { spec fn pat(&self) -> Seq<char>; }
impl VxPat for char { spec fn pat(&self) -> Seq<char> { seq![*self] } }
impl<'a> VxPat for &'a str { spec fn pat(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
fn vx_starts<P: VxPat>(s: &str, p: P) -> (r: bool) ensures r == starts(s@, p.pat()) { unimplemented!() }
#[verifier::external_body]
fn vx_strip<'a, P: VxPat>(s: &'a str, p: P) -> (r: Option<&'a str>) ensures r is Some <==> starts(s@, p.pat()), r is Some ==> (r->0)@ =~= s@.skip(p.pat().len() as int) { unimplemented!() }
/// &s[1..], where the first character is one byte
#[verifier::external_body]
fn vx_tail(s: &str) -> (r: &str) requires s@.len() > 0, s@[0] as u32 <= 0x7f ensures r@ =~= s@.skip(1) { unimplemented!() }
trait VxDup: Sized { spec fn same(&self, o: &Self) -> bool; }
impl VxDup for Path { spec fn same(&self, o: &Path) -> bool { self@ == o@ } }
impl<'a> VxDup for &'a str { spec fn same(&self, o: &&'a str) -> bool { self@ == o@ } }
impl VxDup for WorkspaceId { spec fn same(&self, o: &WorkspaceId) -> bool { *self == *o } }
#[verifier::external_body]
fn vx_dup_<T: VxDup>(p: &T) -> (r: T) ensures r.same(p) { unimplemented!() }
impl Path {
    #[verifier::external_body]
    fn parent(&self) -> (r: Option<&Path>) ensures r is Some <==> comps(self@).len() > 0 && is_name(comps(self@).last()) || comps(self@) =~= seq![Comp::CurDir], r is Some ==> comps((r->0)@) == up(comps(self@)) { unimplemented!() }
    #[verifier::external_body]
    fn file_name(&self) -> (r: Option<&OsStr>) ensures r is Some <==> comps(self@).len() > 0 && comps(self@).last() is Normal, r is Some ==> (r->0)@ == comps(self@).last()->Normal_0 { unimplemented!() }
    #[verifier::external_body]
    fn join(&self, p: &str) -> (r: Path) { unimplemented!() }
}
#[verifier::external_body]
fn vx_path_buf<T: VxPathy>(s: T) -> (r: Path) ensures r@ == s.text() { unimplemented!() }
trait VxPathy { spec fn text(&self) -> Seq<char>; }
impl VxPathy for Path { spec fn text(&self) -> Seq<char> { self@ } }
impl<'a> VxPathy for &'a Path { spec fn text(&self) -> Seq<char> { self@ } }
impl<'a> VxPathy for &'a OsStr { spec fn text(&self) -> Seq<char> { self@ } }

// ---- typst's file ids -------------------------------------------------------------------
struct PackageVersion { major: u32, minor: u32, patch: u32 }
struct PackageSpec { namespace: &'static str, name: &'static str, version: PackageVersion }
#[verifier::external_body]
struct VirtualPath { x: u8 }
impl VirtualPath {
    uninterp spec fn view(&self) -> Seq<char>;
    /// where the path leads under a root, if it stays below it (typst's; unit path proves nothing about it)
    uninterp spec fn under(&self, root: Seq<char>) -> Option<Seq<char>>;
    #[verifier::external_body]
    fn new<T: VxPathy>(p: T) -> (r: VirtualPath) ensures r@ == p.text() { unimplemented!() }
    #[verifier::external_body]
    fn resolve(&self, root: &Path) -> (r: Option<Path>) ensures r is Some <==> self.under(root@) is Some, r is Some ==> Some((r->0)@) == self.under(root@) { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
struct FileId { x: u8 }
impl FileId {
    uninterp spec fn pkg(&self) -> Option<PackageSpec>;
    uninterp spec fn at(&self) -> Seq<char>;
    #[verifier::external_body]
    fn new(p: Option<PackageSpec>, v: VirtualPath) -> (r: FileId) ensures r.pkg() == p, r.at() == v@ { unimplemented!() }
    #[verifier::external_body]
    fn package(&self) -> (r: Option<&PackageSpec>) ensures r is Some <==> self.pkg() is Some, r is Some ==> Some(*(r->0)) == self.pkg() { unimplemented!() }
    #[verifier::external_body]
    fn vpath(&self) -> (r: &VirtualPath) ensures r@ == self.at() { unimplemented!() }
}
enum FileError { AccessDenied, Other(Option<&'static str>), NotFound(Path) }
/// the interner's map: paths are the same if their components are
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct HashMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl HashMap<Path, WorkspaceId> {
    uninterp spec fn view(&self) -> Map<Seq<Comp>, WorkspaceId>;
    #[verifier::external_body]
    fn get(&self, k: &Path) -> (r: Option<&WorkspaceId>)
        ensures r is Some <==> self@.dom().contains(comps(k@)), r is Some ==> *(r->0) == self@[comps(k@)] { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &Path) -> (r: bool) ensures r == self@.dom().contains(comps(k@)) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: Path, v: WorkspaceId) -> (r: Option<WorkspaceId>) ensures final(self)@ == old(self)@.insert(comps(k@), v) { unimplemented!() }
}
//@type crates/tinymist-vfs/src/path_mapper.rs WorkspaceId #[derive(Clone,Copy,PartialEq,Eq)]
//@type crates/tinymist-vfs/src/path_mapper.rs WorkspaceResolution
//@type crates/tinymist-vfs/src/path_mapper.rs Interner
//@const crates/tinymist-vfs/src/path_mapper.rs NO_VERSION
//@const crates/tinymist-vfs/src/path_mapper.rs UNTITLED_ROOT
//@const crates/tinymist-vfs/src/path_mapper.rs WORKSPACE_NS
/// what a root is known by
spec fn nc(cs: Seq<Comp>) -> Seq<Comp> { if cl(cs).len() == 0 { seq![Comp::CurDir] } else { cl(cs) } }
spec fn root_of(it: Interner, k: int) -> Seq<Comp> { comps(it.from_id@[k]@) }
/// the interner names every root it knows by one identity, and each identity by one root
spec fn inv(it: Interner) -> bool {
    &&& it.from_id@.len() <= 65536
    &&& forall|k: int| #![trigger it.from_id@[k]] 0 <= k < it.from_id@.len() ==> it.to_id@.dom().contains(root_of(it, k)) && it.to_id@[root_of(it, k)].0 == k && nc(root_of(it, k)) =~= root_of(it, k)
    &&& forall|c: Seq<Comp>| #[trigger] it.to_id@.dom().contains(c) ==> (it.to_id@[c].0 as int) < it.from_id@.len() && root_of(it, it.to_id@[c].0 as int) == c
}
/// no identity is ever taken back or given to another root
spec fn ext(a: Interner, b: Interner) -> bool { a.from_id@.len() <= b.from_id@.len() && forall|k: int| 0 <= k < a.from_id@.len() ==> #[trigger] b.from_id@[k] == a.from_id@[k] }
spec fn known(it: Interner, id: WorkspaceId) -> bool { (id.0 as int) < it.from_id@.len() }
spec fn room(it: Interner, root: Seq<Comp>) -> bool { it.from_id@.len() < 65536 || it.to_id@.dom().contains(nc(root)) }
proof fn nc_nc(p: Seq<char>) ensures nc(nc(comps(p))) =~= nc(comps(p))
{
    comps_wf(p); cl_canon(comps(p));
    if cl(comps(p)).len() > 0 { canon_cl(cl(comps(p))); }
    reveal_with_fuel(cl, 3);
}
impl WorkspaceId {
//@fn crates/tinymist-vfs/src/path_mapper.rs WorkspaceId::package C24
//@ret r
    ensures r.namespace@ == WORKSPACE_NS@, r.name@ =~= seq!['p'] + dec(self.0), r.version == NO_VERSION
//@entry
    proof { reveal_strlit("p"); }
//@end
//@fn crates/tinymist-vfs/src/path_mapper.rs WorkspaceId::untitled_root C24
//@ret r
    ensures r.namespace@ == WORKSPACE_NS@, r.name@ =~= seq!['p'] + dec(self.0), r.version == UNTITLED_ROOT
//@entry
    proof { reveal_strlit("p"); }
//@end
//@fn crates/tinymist-vfs/src/path_mapper.rs WorkspaceId::path C24
//@sig fn path(&self, vx_it: &mut Interner) -> (r: Path)
    requires known(*old(vx_it), *self)
    ensures *final(vx_it) == *old(vx_it), comps(r@) == root_of(*old(vx_it), self.0 as int)
//@end
//@fn crates/tinymist-vfs/src/path_mapper.rs WorkspaceId::from_package_name C24
//@ret r
    ensures forall|n: u16| name@ =~= seq!['p'] + #[trigger] dec(n) ==> r == Some(WorkspaceId(n))
//@entry
    proof {
        reveal_strlit("p");
        assert forall|n: u16| name@ =~= seq!['p'] + #[trigger] dec(n) implies name@.skip(1) =~= dec(n) && name@.len() > 0 && name@[0] == 'p' by {}
    }
//@end
}
impl WorkspaceResolver {
//@fn crates/tinymist-vfs/src/path_mapper.rs WorkspaceResolver::workspace_id C24
//@sig fn workspace_id(root: &Path, vx_it: &mut Interner) -> (r: WorkspaceId)
    requires inv(*old(vx_it)), room(*old(vx_it), comps(root@))
    ensures inv(*final(vx_it)), ext(*old(vx_it), *final(vx_it)), final(vx_it).from_id@.len() <= old(vx_it).from_id@.len() + 1, known(*final(vx_it), r), root_of(*final(vx_it), r.0 as int) =~= nc(comps(root@))
//@entry
    proof { nc_nc(root@); }
//@end
//@fn crates/tinymist-vfs/src/path_mapper.rs WorkspaceResolver::is_workspace_file C24
//@ret r
    ensures r == (fid.pkg() is Some && (fid.pkg()->0).namespace@ == WORKSPACE_NS@)
//@end
//@fn crates/tinymist-vfs/src/path_mapper.rs WorkspaceResolver::is_package_file C24
//@ret r
    ensures r == (fid.pkg() is Some && (fid.pkg()->0).namespace@ != WORKSPACE_NS@)
//@end
//@fn crates/tinymist-vfs/src/path_mapper.rs WorkspaceResolver::rootless_file C24
//@ret r
    ensures r.pkg() is None, r.at() == path@
//@end
//@fn crates/tinymist-vfs/src/path_mapper.rs WorkspaceResolver::workspace_file C24
//@sig fn workspace_file(root: Option<&Path>, path: VirtualPath, vx_it: &mut Interner) -> (r: FileId)
    requires inv(*old(vx_it)), root is Some ==> room(*old(vx_it), comps((root->0)@))
    ensures inv(*final(vx_it)), ext(*old(vx_it), *final(vx_it)), r.at() == path@,
        root is None ==> r.pkg() is None && *final(vx_it) == *old(vx_it),
        root is Some ==> mounted(r, *final(vx_it), comps((root->0)@), NO_VERSION)
//@end
//@fn crates/tinymist-vfs/src/path_mapper.rs WorkspaceResolver::rooted_untitled C24
//@sig fn rooted_untitled(root: Option<&Path>, path: VirtualPath, vx_it: &mut Interner) -> (r: FileId)
    requires inv(*old(vx_it)), root is Some ==> room(*old(vx_it), comps((root->0)@))
    ensures inv(*final(vx_it)), ext(*old(vx_it), *final(vx_it)), r.at() == path@,
        root is None ==> r.pkg() is None && *final(vx_it) == *old(vx_it),
        root is Some ==> mounted(r, *final(vx_it), comps((root->0)@), UNTITLED_ROOT)
//@end
//@fn crates/tinymist-vfs/src/path_mapper.rs WorkspaceResolver::file_with_parent_root C24
//@sig fn file_with_parent_root(path: &Path, vx_it: &mut Interner) -> (r: Option<FileId>)
    requires inv(*old(vx_it)), room(*old(vx_it), up(comps(path@)))
    ensures inv(*final(vx_it)), ext(*old(vx_it), *final(vx_it)), !abs(comps(path@)) ==> r is None,
        r is Some ==> mounted(r->0, *final(vx_it), up(comps(path@)), NO_VERSION) && comps(path@).len() > 0 && comps(path@).last() == Comp::Normal((r->0).at()),
        abs(comps(path@)) && comps(path@).last() is Normal ==> r is Some
//@end
//@fn crates/tinymist-vfs/src/path_mapper.rs WorkspaceResolver::resolve C24
//@sig fn resolve(fid: FileId, vx_it: &mut Interner) -> (r: Result<WorkspaceResolution, FileError>)
    ensures *final(vx_it) == *old(vx_it), fid.pkg() is None ==> r == Ok::<WorkspaceResolution, FileError>(WorkspaceResolution::Rootless),
        fid.pkg() is Some && (fid.pkg()->0).namespace@ != WORKSPACE_NS@ ==> r == Ok::<WorkspaceResolution, FileError>(WorkspaceResolution::Package),
        forall|n: u16| #[trigger] named(fid, n, NO_VERSION) ==> WorkspaceResolution::Workspace(WorkspaceId(n)) == r->Ok_0 && r is Ok,
        forall|n: u16| #[trigger] named(fid, n, UNTITLED_ROOT) ==> WorkspaceResolution::UntitledRooted(WorkspaceId(n)) == r->Ok_0 && r is Ok
//@end
}
struct WorkspaceResolver {}
/// the file is the file of identity n, of the given kind
spec fn named(f: FileId, n: u16, v: PackageVersion) -> bool {
    f.pkg() is Some && (f.pkg()->0).namespace@ == WORKSPACE_NS@ && (f.pkg()->0).name@ =~= seq!['p'] + dec(n) && (f.pkg()->0).version == v
}
/// the file belongs to the identity of that root
spec fn mounted(f: FileId, it: Interner, root: Seq<Comp>, v: PackageVersion) -> bool {
    exists|n: u16| #![trigger named(f, n, v)] #![trigger root_of(it, n as int)] named(f, n, v) && n < it.from_id@.len() && root_of(it, n as int) =~= nc(root)
}
struct VxResolver { x: u8 }
impl VxResolver {
    uninterp spec fn pkg_root(&self, p: PackageSpec) -> Result<Path, FileError>;
    #[verifier::external_body]
    fn resolve_package_root(&self, p: &PackageSpec) -> (r: Result<Path, FileError>) ensures r == self.pkg_root(*p) { unimplemented!() }
//@fn crates/tinymist-vfs/src/path_mapper.rs RootResolver::resolve_root C24
//@option map_result
//@sig fn resolve_root(&self, file_id: FileId, vx_it: &mut Interner) -> (r: Result<Option<Path>, FileError>)
    requires forall|n: u16| (#[trigger] named(file_id, n, NO_VERSION) || named(file_id, n, UNTITLED_ROOT)) ==> n < old(vx_it).from_id@.len(),
        made(file_id)
    ensures *final(vx_it) == *old(vx_it),
        file_id.pkg() is None ==> r == Ok::<Option<Path>, FileError>(None),
        forall|n: u16| #[trigger] named(file_id, n, NO_VERSION) ==> r is Ok && (r->Ok_0) is Some && comps((r->Ok_0->0)@) == root_of(*old(vx_it), n as int),
        forall|n: u16| #[trigger] named(file_id, n, UNTITLED_ROOT) ==> r is Ok && (r->Ok_0) is Some && comps((r->Ok_0->0)@) == root_of(*old(vx_it), n as int),
        file_id.pkg() is Some && (file_id.pkg()->0).namespace@ != WORKSPACE_NS@ && self.pkg_root(file_id.pkg()->0) is Ok ==> r is Ok && r->Ok_0 == Some(self.pkg_root(file_id.pkg()->0)->Ok_0)
//@end
}
/// the file was made by one of the functions above, or is a package's
spec fn made(f: FileId) -> bool {
    f.pkg() is None || (f.pkg()->0).namespace@ != WORKSPACE_NS@ || exists|n: u16| #[trigger] named(f, n, NO_VERSION) || named(f, n, UNTITLED_ROOT)
}

// ---- the property, over any history: what a first call gave still holds at any later one
/// same root, same identity; different roots, different identities; an identity leads back to its root
fn vx_mount_twice(a: &Path, b: &Path, vx_it: &mut Interner) -> (r: (WorkspaceId, WorkspaceId))
    requires inv(*old(vx_it)), old(vx_it).from_id@.len() < 65535
    ensures r.0 == r.1 <==> nc(comps(a@)) =~= nc(comps(b@))
{
    let x = WorkspaceResolver::workspace_id(a, vx_it);
    let y = WorkspaceResolver::workspace_id(b, vx_it);
    let p = x.path(vx_it);
    assert(comps(p@) =~= nc(comps(a@)));
    (x, y)
}
proof fn vx_history(it1: Interner, id1: WorkspaceId, it2: Interner, id2: WorkspaceId)
    requires inv(it1), inv(it2), ext(it1, it2), known(it1, id1), known(it2, id2)
    ensures root_of(it2, id1.0 as int) == root_of(it1, id1.0 as int), id1 == id2 <==> root_of(it1, id1.0 as int) =~= root_of(it2, id2.0 as int)
{
    assert(it2.from_id@[id1.0 as int] == it1.from_id@[id1.0 as int]);
}
proof fn vx_kinds_differ() ensures NO_VERSION != UNTITLED_ROOT {}
}
fn main() {}
