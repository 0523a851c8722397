// Unit: layers of the virtual file system (C23).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@include overlay_core.rs
// ---- the lowest layer: the disk (what it holds is the operating system's) ---------------
#[derive(Debug)]
#[verifier::external_body]
struct IoErr { x: u8 }
impl FileError {
    uninterp spec fn of_io(e: IoErr, p: PKey) -> FileError;
    #[verifier::external_body]
    fn from_io(e: IoErr, p: &Path) -> (r: FileError) ensures r == Self::of_io(e, pk(p@)) { unimplemented!() }
}
/// the bytes a file has, and whether it is a folder
uninterp spec fn disk(p: PKey) -> Seq<u8>;
uninterp spec fn folder(p: PKey) -> bool;
#[verifier::external_body]
struct Metadata { x: u8 }
impl Metadata {
    uninterp spec fn of(&self) -> PKey;
    #[verifier::external_body]
    fn is_dir(&self) -> (r: bool) ensures r == folder(self.of()) { unimplemented!() }
}
#[verifier::external_body]
fn vx_metadata(p: &Path) -> (r: Result<Metadata, IoErr>) ensures r is Ok ==> r->Ok_0.of() == pk(p@) { unimplemented!() }
#[verifier::external_body]
struct File { x: u8 }
impl File { uninterp spec fn of(&self) -> PKey; }
#[verifier::external_body]
fn vx_open(p: &Path) -> (r: Result<File, IoErr>) ensures r is Ok ==> r->Ok_0.of() == pk(p@) { unimplemented!() }
#[verifier::external_body]
fn vx_buf() -> (r: Vec<u8>) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
fn vx_read_all(f: File, b: &mut Vec<u8>) -> (r: Result<usize, IoErr>) ensures r is Ok ==> final(b)@ == old(b)@ + disk(f.of()) { unimplemented!() }
impl Bytes {
    #[verifier::external_body]
    fn new(b: Vec<u8>) -> (r: Bytes) ensures r@ == b@ { unimplemented!() }
}
//@type crates/tinymist-vfs/src/system.rs SystemAccessModel
//@type crates/tinymist-vfs/src/system.rs SystemFileMeta
impl SystemAccessModel {
//@fn crates/tinymist-vfs/src/system.rs SystemAccessModel::stat C23
//@ret r
    ensures r is Ok ==> r->Ok_0.is_dir == folder(pk(src@))
//@end
}
impl PathAccessModel for SystemAccessModel {
    spec fn gives(&self, p: PKey, r: Result<Bytes, FileError>) -> bool { r is Ok ==> r->Ok_0@ =~= disk(p) && !folder(p) }
//@fn crates/tinymist-vfs/src/system.rs PathAccessModel@SystemAccessModel::content C23
//@end
}
// ---- the property, for the whole stack and any history ----------------------------------
type VxPaths<M> = OverlayAccessModel<Path, NotifyAccessModel<SharedAccessModel<M>>>;
type VxStack<M> = OverlayAccessModel<FileId, ResolveAccessModel<VxPaths<M>>>;
/// buffers first, then the watcher's report, then the disk
fn vx_read_through<M: PathAccessModel>(s: &VxStack<M>, f: FileId) -> (r: (Option<Path>, Result<Bytes, FileError>))
    ensures
        s.files@.dom().contains(f) ==> r.1 == held(s.files@[f]),
        !s.files@.dom().contains(f) && (s.inner.resolver.path_of(f) matches Ok(PathResolution::Resolved(q)) && s.inner.inner.files@.dom().contains(pk(q@))) ==> r.1 == held(s.inner.inner.files@[pk(s.inner.resolver.path_of(f)->Ok_0->Resolved_0@)]),
        !s.files@.dom().contains(f) && (s.inner.resolver.path_of(f) matches Ok(PathResolution::Resolved(q)) && !s.inner.inner.files@.dom().contains(pk(q@)) && s.inner.inner.inner.files@.dom().contains(pk(q@)))
            ==> r.1 == held(s.inner.inner.inner.files@[pk(s.inner.resolver.path_of(f)->Ok_0->Resolved_0@)]),
        !s.files@.dom().contains(f) && (s.inner.resolver.path_of(f) matches Ok(PathResolution::Resolved(q)) && !s.inner.inner.files@.dom().contains(pk(q@)) && !s.inner.inner.inner.files@.dom().contains(pk(q@)))
            ==> s.inner.inner.inner.inner.inner@.gives(pk(s.inner.resolver.path_of(f)->Ok_0->Resolved_0@), r.1)
{ s.content(f) }
/// what a file reads as is changed by nothing done to another one, and taking a buffer away uncovers what lies below
fn vx_history<M: PathAccessModel, F: Fn(&Path) -> Path>(m: &mut OverlayAccessModel<Path, M>, a: &Path, b: FileSnapshot, cast: F)
    requires cast.requires((a,)), forall|k: Path| #[trigger] cast.ensures((a,), k) ==> k.key() == a.key()
    ensures forall|p: PKey, r: Result<Bytes, FileError>| p != pk(a@) ==> (#[trigger] final(m).gives(p, r) <==> old(m).gives(p, r)),
        forall|r: Result<Bytes, FileError>| #[trigger] final(m).gives(pk(a@), r) <==> old(m).inner.gives(pk(a@), r)
{
    m.add_file(a, b, cast);
    assert(forall|r: Result<Bytes, FileError>| #[trigger] m.gives(pk(a@), r) <==> r == held(b));
    m.remove_file(a);
}
}
fn main() {}
