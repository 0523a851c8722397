// Unit: writing files (C12), on Unix. The world is the file system; every state it goes through is recorded.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@rw type Result<()> => Result<(), VxErr>
//@rw type std::fs::Permissions => Permissions
//@rw type fs::Permissions => Permissions
//@rw expr $x.as_ref() => $x
//@rw expr $x.with_context($_list) => vx_ctx($x)
//@rw expr $x.context($_list) => vx_ctx($x)
//@rw expr u32::from($x) => ($x) as u32
//@rw expr libc::S_IRWXU => 0o700u32
//@rw expr libc::S_IRWXG => 0o070u32
//@rw expr libc::S_IRWXO => 0o007u32
//@rw expr std::fs::Permissions::from_mode($x) => vx_mode($x)
//@rw expr fs::Permissions::from_mode($x) => vx_mode($x)
//@rw expr Permissions::from_mode($x) => vx_mode($x)
//@rw expr io::SeekFrom::Start($n) => SeekFrom::Start($n)
//@rw expr std::io::SeekFrom::Start($n) => SeekFrom::Start($n)
//@rw expr std::fs::write($p, $c) => fs_write($p, $c)
//@rw expr fs::write($p, $c) => fs_write($p, $c)
//@rw expr std::fs::File::create($p) => fs_create($p)
//@rw expr File::create($p) => fs_create($p)
//@thread metadata write_all set_permissions persist tempfile_in open read_to_end set_len seek fs_write fs_create
use vstd::prelude::*;
verus! {
uninterp spec fn vx_vac(k: int) -> bool;
type Name = Seq<char>;
type Bytes = Seq<u8>;
// ---- the file system --------------------------------------------------------------------
/// a file; `temp`: removed when its handle is dropped
ghost struct Node { data: Bytes, mode: u32, temp: bool }
type Fs = Map<Name, Node>;
/// `steps`: the states after each step that changed anything, in order (a crash leaves one of them, or the first one)
tracked struct World { ghost fs: Fs, ghost steps: Seq<Fs> }
/// what is there once the handles of temporary files are dropped
spec fn kept(fs: Fs) -> Fs { fs.remove_keys(fs.dom().filter(|p: Name| fs[p].temp)) }
/// one step to `fs`
spec fn did(o: World, n: World, fs: Fs) -> bool { n.fs == fs && n.steps == o.steps.push(fs) }
spec fn same(o: World, n: World) -> bool { n.fs == o.fs && n.steps == o.steps }
/// some steps, all of them changing nothing but the content of `p`, which ends with `data`
spec fn wrote(o: World, n: World, p: Name, data: Bytes) -> bool {
    &&& n.fs == o.fs.insert(p, Node { data, ..o.fs[p] })
    &&& n.steps.len() >= o.steps.len()
    &&& forall|i: int| 0 <= i < o.steps.len() ==> #[trigger] n.steps[i] == o.steps[i]
    &&& forall|i: int| o.steps.len() <= i < n.steps.len() ==> only(o.fs, #[trigger] n.steps[i], p)
    &&& data == o.fs[p].data ==> n.steps == o.steps
}
spec fn only(a: Fs, b: Fs, p: Name) -> bool { b.dom().contains(p) && a.dom().contains(p) && b == a.insert(p, Node { data: b[p].data, ..a[p] }) }
/// what a file is: its content and permission bits, if it is there
spec fn at(fs: Fs, p: Name) -> Option<(Bytes, u32)> { if fs.dom().contains(p) { Some((fs[p].data, fs[p].mode & 0o777)) } else { None } }

#[verifier::external_body]
#[derive(Debug)]
struct VxErr { x: u8 }
#[verifier::external_body]
#[derive(Debug)]
struct IoErr { x: u8 }
#[verifier::external_body]
#[derive(Debug)]
struct PersistError { x: u8 }
impl From<IoErr> for VxErr { #[verifier::external_body] fn from(e: IoErr) -> VxErr { unimplemented!() } }
impl From<PersistError> for VxErr { #[verifier::external_body] fn from(e: PersistError) -> VxErr { unimplemented!() } }
#[verifier::external_body]
fn vx_ctx<T, E>(x: Result<T, E>) -> (r: Result<T, VxErr>)
    ensures r is Ok <==> x is Ok, r is Ok ==> r->Ok_0 == x->Ok_0 { unimplemented!() }
#[verifier::external_body]
struct OsStr { x: u8 }
impl View for OsStr { type V = Name; uninterp spec fn view(&self) -> Name; }
#[verifier::external_body]
struct Path { x: u8 }
impl View for Path { type V = Name; uninterp spec fn view(&self) -> Name; }
uninterp spec fn dir_of(p: Name) -> Name;
uninterp spec fn base_of(p: Name) -> Name;
uninterp spec fn has_parent(p: Name) -> bool;
impl Path {
    #[verifier::external_body]
    fn metadata(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<Metadata, IoErr>)
        ensures same(*old(w), *final(w)), r is Ok <==> old(w).fs.dom().contains(self@), r is Ok ==> (r->Ok_0).mode_() == old(w).fs[self@].mode { unimplemented!() }
    #[verifier::external_body]
    fn file_name(&self) -> (r: Option<&OsStr>) ensures has_parent(self@) ==> r is Some && (r->0)@ == base_of(self@) { unimplemented!() }
    #[verifier::external_body]
    fn parent(&self) -> (r: Option<&Path>) ensures has_parent(self@) ==> r is Some && (r->0)@ == dir_of(self@) { unimplemented!() }
}
#[verifier::external_body]
struct Metadata { x: u8 }
impl Metadata {
    uninterp spec fn mode_(&self) -> u32;
    #[verifier::external_body]
    fn permissions(&self) -> (r: Permissions) ensures r.mode_() == self.mode_() { unimplemented!() }
}
#[verifier::external_body]
struct Permissions { x: u8 }
impl Permissions {
    uninterp spec fn mode_(&self) -> u32;
    #[verifier::external_body]
    fn mode(&self) -> (r: u32) ensures r == self.mode_() { unimplemented!() }
}
#[verifier::external_body]
fn vx_mode(m: u32) -> (r: Permissions) ensures r.mode_() == m { unimplemented!() }
/// the tempfile crate: a new file beside the destination, renamed onto it by `persist`
struct TempFileBuilder { ghost pre: Option<Name> }
impl TempFileBuilder {
    #[verifier::external_body]
    fn new() -> (r: TempFileBuilder) ensures r.pre is None { unimplemented!() }
    #[verifier::external_body]
    fn prefix(self, p: &OsStr) -> (r: TempFileBuilder) ensures r.pre == Some(p@) { unimplemented!() }
    /// a new name: the prefix and some random letters
    #[verifier::external_body]
    fn tempfile_in(self, dir: &Path, Tracked(w): Tracked<&mut World>) -> (r: Result<NamedTempFile, IoErr>)
        ensures
            r is Err ==> same(*old(w), *final(w)),
            r is Ok ==> {
                let t = (r->Ok_0).name();
                &&& !old(w).fs.dom().contains(t) && dir_of(t) == dir@ && (self.pre is Some ==> base_of(t) != self.pre->0)
                &&& did(*old(w), *final(w), old(w).fs.insert(t, Node { data: Seq::empty(), mode: 0o600, temp: true }))
            } { unimplemented!() }
}
#[verifier::external_body]
struct NamedTempFile { x: u8 }
#[verifier::external_body]
struct TempHandle { x: u8 }
impl TempHandle {
    uninterp spec fn name(&self) -> Name;
    #[verifier::external_body]
    fn set_permissions(&self, p: Permissions, Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoErr>)
        requires old(w).fs.dom().contains(self.name())
        ensures r is Err ==> same(*old(w), *final(w)),
            r is Ok ==> did(*old(w), *final(w), old(w).fs.insert(self.name(), Node { mode: p.mode_(), ..old(w).fs[self.name()] })) { unimplemented!() }
}
impl NamedTempFile {
    uninterp spec fn name(&self) -> Name;
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoErr>)
        requires old(w).fs.dom().contains(old(self).name())
        ensures final(self).name() == old(self).name(),
            wrote(*old(w), *final(w), old(self).name(), final(w).fs[old(self).name()].data),
            r is Ok ==> final(w).fs[old(self).name()].data == old(w).fs[old(self).name()].data + b@ { unimplemented!() }
    #[verifier::external_body]
    fn as_file(&self) -> (r: &TempHandle) ensures r.name() == self.name() { unimplemented!() }
    /// rename(2): in one step, within one directory
    #[verifier::external_body]
    fn persist(self, p: &Path, Tracked(w): Tracked<&mut World>) -> (r: Result<File, PersistError>)
        requires old(w).fs.dom().contains(self.name()), dir_of(self.name()) == dir_of(p@)
        ensures r is Err ==> same(*old(w), *final(w)),
            r is Ok ==> did(*old(w), *final(w), old(w).fs.remove(self.name()).insert(p@, Node { temp: false, ..old(w).fs[self.name()] })) { unimplemented!() }
}
// ---- plain files ----------------------------------------------------------------------------
enum SeekFrom { Start(u64), End(i64), Current(i64) }
struct OpenOptions { r: bool, w: bool, c: bool, t: bool, a: bool }
impl OpenOptions {
    fn new() -> (r: OpenOptions) ensures r == (OpenOptions { r: false, w: false, c: false, t: false, a: false }) { OpenOptions { r: false, w: false, c: false, t: false, a: false } }
    fn read(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { r: b, ..self }) { OpenOptions { r: b, ..self } }
    fn write(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { w: b, ..self }) { OpenOptions { w: b, ..self } }
    fn create(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { c: b, ..self }) { OpenOptions { c: b, ..self } }
    fn truncate(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { t: b, ..self }) { OpenOptions { t: b, ..self } }
    fn append(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { a: b, ..self }) { OpenOptions { a: b, ..self } }
    #[verifier::external_body]
    fn open(self, p: &Path, Tracked(w): Tracked<&mut World>) -> (r: Result<File, IoErr>)
        ensures
            r is Err ==> same(*old(w), *final(w)),
            r is Ok ==> {
                let f = r->Ok_0;
                let there = old(w).fs.dom().contains(p@);
                &&& f.name() == p@ && f.pos() == 0 && f.app() == self.a && f.r() == self.r && f.w() == (self.w || self.a)
                &&& there || self.c
                &&& !there ==> did(*old(w), *final(w), old(w).fs.insert(p@, new_file()))
                &&& there && self.t ==> did(*old(w), *final(w), old(w).fs.insert(p@, Node { data: Seq::empty(), ..old(w).fs[p@] }))
                &&& there && !self.t ==> same(*old(w), *final(w))
            } { unimplemented!() }
}
uninterp spec fn new_mode() -> u32;
spec fn new_file() -> Node { Node { data: Seq::empty(), mode: new_mode(), temp: false } }
#[verifier::external_body]
struct File { x: u8 }
impl File {
    uninterp spec fn name(&self) -> Name;
    uninterp spec fn pos(&self) -> int;
    uninterp spec fn app(&self) -> bool;
    uninterp spec fn r(&self) -> bool;
    uninterp spec fn w(&self) -> bool;
    spec fn kin(&self, f: &File) -> bool { self.name() == f.name() && self.app() == f.app() && self.r() == f.r() && self.w() == f.w() }
    spec fn ok(&self, w: World) -> bool { w.fs.dom().contains(self.name()) && 0 <= self.pos() }
    #[verifier::external_body]
    fn read_to_end(&mut self, b: &mut Vec<u8>, Tracked(w): Tracked<&mut World>) -> (r: Result<usize, IoErr>)
        requires old(self).ok(*old(w))
        ensures same(*old(w), *final(w)), final(self).kin(old(self)), final(self).pos() >= old(self).pos(),
            r is Ok ==> {
                let d = old(w).fs[old(self).name()].data;
                &&& old(self).r()
                &&& old(self).pos() <= d.len() ==> final(b)@ == old(b)@ + d.skip(old(self).pos()) && final(self).pos() == d.len()
                &&& old(self).pos() > d.len() ==> final(b)@ == old(b)@ && final(self).pos() == old(self).pos()
            } { unimplemented!() }
    #[verifier::external_body]
    fn set_len(&self, n: u64, Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoErr>)
        requires self.ok(*old(w))
        ensures r is Err ==> same(*old(w), *final(w)),
            r is Ok ==> wrote(*old(w), *final(w), self.name(), sized(old(w).fs[self.name()].data, n as int)) { unimplemented!() }
    #[verifier::external_body]
    fn seek(&mut self, s: SeekFrom, Tracked(w): Tracked<&mut World>) -> (r: Result<u64, IoErr>)
        requires old(self).ok(*old(w))
        ensures same(*old(w), *final(w)), final(self).kin(old(self)), final(self).pos() >= 0, r is Err ==> final(self).pos() == old(self).pos(),
            r is Ok ==> match s {
                SeekFrom::Start(n) => final(self).pos() == n,
                SeekFrom::End(n) => final(self).pos() == old(w).fs[old(self).name()].data.len() + n,
                SeekFrom::Current(n) => final(self).pos() == old(self).pos() + n,
            } { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoErr>)
        requires old(self).ok(*old(w))
        ensures final(self).kin(old(self)), final(self).pos() >= 0,
            wrote(*old(w), *final(w), old(self).name(), final(w).fs[old(self).name()].data),
            r is Ok ==> old(self).w() && final(w).fs[old(self).name()].data == written(old(w).fs[old(self).name()].data, if old(self).app() { old(w).fs[old(self).name()].data.len() as int } else { old(self).pos() }, b@) { unimplemented!() }
}
/// cut or filled with zeros
spec fn sized(d: Bytes, n: int) -> Bytes { if n <= d.len() { d.take(n) } else { d + Seq::new((n - d.len()) as nat, |i: int| 0u8) } }
/// `b` written over `d` at `pos`
spec fn written(d: Bytes, pos: int, b: Bytes) -> Bytes {
    if b.len() == 0 { d } else { sized(d, pos) + b + (if pos + b.len() < d.len() { d.skip(pos + b.len()) } else { Seq::empty() }) }
}
/// create or truncate, then write
#[verifier::external_body]
fn fs_write(p: &Path, b: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoErr>)
    ensures r is Ok ==> final(w).fs == old(w).fs.insert(p@, Node { data: b@, ..(if old(w).fs.dom().contains(p@) { old(w).fs[p@] } else { new_file() }) }) { unimplemented!() }
trait VxBytes { spec fn vb(&self) -> Bytes; }
impl VxBytes for Vec<u8> { spec fn vb(&self) -> Bytes { self@ } }
impl<'a> VxBytes for &'a [u8] { spec fn vb(&self) -> Bytes { (*self)@ } }
impl<'a> VxBytes for &'a Vec<u8> { spec fn vb(&self) -> Bytes { (*self)@ } }
#[verifier::external_body]
fn vx_ne<A: VxBytes, B: VxBytes>(a: &A, b: &B) -> (r: bool) ensures r == !(a.vb() =~= b.vb()) { unimplemented!() }
#[verifier::external_body]
fn vx_eq<A: VxBytes, B: VxBytes>(a: &A, b: &B) -> (r: bool) ensures r == (a.vb() =~= b.vb()) { unimplemented!() }

// ---- what is promised -------------------------------------------------------------------------
/// the permission bits a replaced file has afterwards
spec fn mode_after(o: Fs, p: Name) -> u32 { if o.dom().contains(p) { o[p].mode & 0o777 } else { 0o600 } }
/// at every step the destination is as before or complete, and nothing but temporary files changes elsewhere
spec fn all_or_nothing(o: World, n: World, p: Name, data: Bytes) -> bool {
    &&& n.steps.len() >= o.steps.len()
    &&& forall|i: int| o.steps.len() <= i < n.steps.len() ==> {
        let s = #[trigger] n.steps[i];
        &&& at(s, p) == at(o.fs, p) || at(s, p) == Some((data, mode_after(o.fs, p)))
        &&& kept(s).remove(p) =~= kept(o.fs).remove(p)
    }
}
/// a temporary file is not kept
broadcast proof fn kept_insert(fs: Fs, t: Name, n: Node)
    requires n.temp, !fs.dom().contains(t) || fs[t].temp
    ensures #[trigger] kept(fs.insert(t, n)) == kept(fs)
{ assert(kept(fs.insert(t, n)) =~= kept(fs)); }
broadcast proof fn kept_only(a: Fs, b: Fs, p: Name)
    requires #[trigger] only(a, b, p), a[p].temp
    ensures kept(b) == kept(a), forall|q: Name| q != p ==> at(b, q) == at(a, q)
{ kept_insert(a, p, b[p]); }
broadcast proof fn kept_persist(fs: Fs, t: Name, p: Name, n: Node)
    requires fs.dom().contains(t), fs[t].temp, !n.temp
    ensures kept((#[trigger] fs.remove(t).insert(p, n))).remove(p) == kept(fs).remove(p), kept(fs.remove(t).insert(p, n)).dom().contains(p)
{ assert(kept(fs.remove(t).insert(p, n)).remove(p) =~= kept(fs).remove(p)); }
proof fn masks(m: u32) ensures m & (0o700u32 | 0o070u32 | 0o007u32) == m & 0o777u32, (m & 0o777u32) & 0o777u32 == m & 0o777u32, 0o600u32 & 0o777u32 == 0o600u32
{
    assert(m & (0o700u32 | 0o070u32 | 0o007u32) == m & 0o777u32) by (bit_vector);
    assert((m & 0o777u32) & 0o777u32 == m & 0o777u32) by (bit_vector);
    assert(0o600u32 & 0o777u32 == 0o600u32) by (bit_vector);
}

//@fn crates/tinymist-std/src/fs/paths.rs write_atomic C12
//@sig fn write_atomic(path: &Path, contents: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxErr>)
//@option map_option
//@entry
    broadcast use kept_insert, kept_only, kept_persist;
    proof { assert forall|m: u32| true implies #[trigger] (m & 0o777u32) & 0o777u32 == m & 0o777u32 && m & (0o700u32 | 0o070u32 | 0o007u32) == m & 0o777u32 by { masks(m); }; masks(0); }
//@spec
requires has_parent(path@), !old(w).fs.dom().contains(path@) || !old(w).fs[path@].temp,
ensures
    all_or_nothing(*old(w), *final(w), path@, contents@),
    r is Ok ==> at(final(w).fs, path@) == Some((contents@, mode_after(old(w).fs, path@))) && kept(final(w).fs).remove(path@) =~= kept(old(w).fs).remove(path@)
        && kept(final(w).fs).dom().contains(path@),
    r is Err ==> kept(final(w).fs) =~= kept(old(w).fs),
//@end

//@fn crates/tinymist-std/src/fs/paths.rs write_if_changed C12
//@sig fn write_if_changed(path: &Path, contents: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxErr>)
//@rw expr $a != $b => vx_ne(&$a, &$b)
//@rw expr $a == $b => vx_eq(&$a, &$b)
//@spec
requires !old(w).fs.dom().contains(path@) || !old(w).fs[path@].temp,
ensures
    r is Ok ==> final(w).fs.dom().contains(path@) && final(w).fs[path@].data =~= contents@ && final(w).fs.remove(path@) =~= old(w).fs.remove(path@),
    r is Ok && old(w).fs.dom().contains(path@) ==> final(w).fs[path@].mode == old(w).fs[path@].mode,
    // a file that already has the content is not touched
    old(w).fs.dom().contains(path@) && old(w).fs[path@].data == contents@ ==> same(*old(w), *final(w)),
//@end
//@fn crates/tinymist-std/src/fs/paths.rs append C12
//@sig fn append(path: &Path, contents: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxErr>)
//@spec
ensures
    r is Ok ==> final(w).fs.dom().contains(path@) && final(w).fs.remove(path@) =~= old(w).fs.remove(path@)
        && final(w).fs[path@].data =~= (if old(w).fs.dom().contains(path@) { old(w).fs[path@].data } else { Seq::empty() }) + contents@,
//@end
//@fn crates/tinymist-std/src/fs/paths.rs write C12
//@sig fn write(path: &Path, contents: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), VxErr>)
//@spec
ensures
    r is Ok ==> final(w).fs.dom().contains(path@) && final(w).fs.remove(path@) =~= old(w).fs.remove(path@) && final(w).fs[path@].data == contents@,
//@end
}
fn main() {}
