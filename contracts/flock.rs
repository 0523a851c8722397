// Unit: file locks (C13), on Linux. The world holds every lock on the machine.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns, non_upper_case_globals)]
//@rw type io::Result<$t> => Result<$t, IoErr>
//@rw type Result<FileLock> => Result<FileLock, AnyErr>
//@rw type Result<Option<FileLock>> => Result<Option<FileLock>, AnyErr>
//@rw type Result<bool> => Result<bool, AnyErr>
//@rw type Result<(Path, File)> => Result<(Path, File), AnyErr>
//@rw type Result<()> => Result<(), IoErr>
//@rw type PathBuf => Path
//@rw type libc::c_int => i32
//@rw type c_int => i32
//@rw type libc::statfs => Statfs
//@rw expr $x.as_ref() => $x
//@rw expr $x.with_context($_list) => vx_ctx($x)
//@rw expr $x.context($_list) => $x
//@rw expr anyhow::Error::from($x) => vx_any($x)
//@rw expr io::ErrorKind::NotFound => ErrorKind::NotFound
//@rw expr std::io::ErrorKind::NotFound => ErrorKind::NotFound
//@rw expr $a.kind() == $b => vx_kind_eq($a.kind(), $b)
//@rw expr $a.raw_os_error() == $b => vx_os_eq($a.raw_os_error(), $b)
//@rw expr Error::last_os_error() => last_os_error()
//@rw expr io::Error::last_os_error() => last_os_error()
//@rw expr std::io::Error::last_os_error() => last_os_error()
//@rw expr libc::flock($f, $g) => libc_flock($f, $g)
//@rw expr libc::statfs($p, $b) => libc_statfs($p, $b)
//@rw expr libc::LOCK_SH => LOCK_SH
//@rw expr libc::LOCK_EX => LOCK_EX
//@rw expr libc::LOCK_NB => LOCK_NB
//@rw expr libc::LOCK_UN => LOCK_UN
//@rw expr libc::EWOULDBLOCK => EWOULDBLOCK
//@rw expr libc::EAGAIN => EWOULDBLOCK
//@rw expr libc::ENOTSUP => EOPNOTSUPP
//@rw expr libc::EOPNOTSUPP => EOPNOTSUPP
//@rw expr libc::ENOSYS => ENOSYS
//@rw pat libc::EWOULDBLOCK => EWOULDBLOCK
//@rw pat libc::EAGAIN => EWOULDBLOCK
//@rw pat libc::ENOTSUP => EOPNOTSUPP
//@rw pat libc::EOPNOTSUPP => EOPNOTSUPP
//@rw pat libc::ENOSYS => ENOSYS
//@rw expr libc::NFS_SUPER_MAGIC => NFS_SUPER_MAGIC
//@rw expr CString::new($x) => vx_cstring($x)
//@rw expr mem::zeroed() => vx_zeroed()
//@rw expr std::mem::zeroed() => vx_zeroed()
//@rw expr paths::create_dir_all($p) => create_dir_all($p)
//@thread lock_shared lock_exclusive try_lock_shared try_lock_exclusive unlock flock libc_flock last_os_error open create_dir_all
//@option exit_into
use vstd::prelude::*;
verus! {
uninterp spec fn vx_vac(k: int) -> bool;
const LOCK_SH: i32 = 1;
const LOCK_EX: i32 = 2;
const LOCK_NB: i32 = 4;
const LOCK_UN: i32 = 8;
const EWOULDBLOCK: i32 = 11;
const EOPNOTSUPP: i32 = 95;
const ENOSYS: i32 = 38;
const NFS_SUPER_MAGIC: i64 = 0x6969;
type Name = Seq<char>;
#[derive(PartialEq, Eq, Structural)]
enum Mode { Shared, Exclusive }
/// `locks`: who holds what kind of lock; `file`: what file a handle is for; `data`: the files' contents;
/// `errno`: the error of the last system call of this thread
tracked struct World { ghost locks: Map<int, Mode>, ghost file: Map<int, Name>, ghost data: Map<Name, Seq<u8>>, ghost errno: i32 }
/// `h` holds its file in the way its mode promises
spec fn granted(w: World, h: int, m: Mode) -> bool {
    &&& w.locks.dom().contains(h) && w.locks[h] == m
    &&& forall|g: int| #![trigger w.locks[g]] g != h && w.locks.dom().contains(g) && w.file.dom().contains(g) && w.file[g] == w.file[h] ==> m is Shared && w.locks[g] is Shared
}
/// somebody else stands in the way of `h`
spec fn contended(w: World, h: int, m: Mode) -> bool {
    exists|g: int| #![trigger w.locks[g]] g != h && w.locks.dom().contains(g) && w.file.dom().contains(g) && w.file[g] == w.file[h] && (m is Exclusive || w.locks[g] is Exclusive)
}
/// nothing this process holds through other handles changed; the files are as they were
spec fn kin(o: World, n: World) -> bool { n.data == o.data && n.file == o.file }
spec fn unsupported(e: i32) -> bool { e == EOPNOTSUPP || e == ENOSYS }
/// locks on the file system of `p` are not tried: it is a network file system
uninterp spec fn on_nfs(p: Name) -> bool;

#[verifier::external_body]
#[derive(Debug)]
struct IoErr { x: u8 }
impl IoErr {
    uninterp spec fn os(&self) -> i32;
    uninterp spec fn not_found(&self) -> bool;
    #[verifier::external_body]
    fn raw_os_error(&self) -> (r: Option<i32>) ensures r == Some(self.os()) { unimplemented!() }
    #[verifier::external_body]
    fn kind(&self) -> (r: ErrorKind) ensures r is NotFound <==> self.not_found() { unimplemented!() }
}
type Error = IoErr;
enum ErrorKind { NotFound, Other }
fn vx_kind_eq(a: ErrorKind, b: ErrorKind) -> (r: bool) ensures r == (a == b) { match (a, b) { (ErrorKind::NotFound, ErrorKind::NotFound) => true, (ErrorKind::Other, ErrorKind::Other) => true, _ => false } }
fn vx_os_eq(a: Option<i32>, b: Option<i32>) -> (r: bool) ensures r == (a == b) { match (a, b) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false } }
#[verifier::external_body]
#[derive(Debug)]
struct AnyErr { x: u8 }
impl From<IoErr> for AnyErr { #[verifier::external_body] fn from(e: IoErr) -> AnyErr { unimplemented!() } }
fn vx_format() -> (r: u8) { 0 }
trait VxInto<T>: Sized { fn vx_into(self) -> (r: T); }
impl VxInto<AnyErr> for IoErr { #[verifier::external_body] fn vx_into(self) -> (r: AnyErr) { unimplemented!() } }
impl VxInto<AnyErr> for AnyErr { fn vx_into(self) -> (r: AnyErr) { self } }
fn vx_into<A: VxInto<B>, B>(x: A) -> (r: B) { x.vx_into() }
#[verifier::external_body]
fn vx_any(e: IoErr) -> (r: AnyErr) { unimplemented!() }
#[verifier::external_body]
fn vx_ctx<T, E>(x: Result<T, E>) -> (r: Result<T, AnyErr>)
    ensures r is Ok <==> x is Ok, r is Ok ==> r->Ok_0 == x->Ok_0 { unimplemented!() }
// ---- paths and files ----------------------------------------------------------------------
#[verifier::external_body]
struct Path { x: u8 }
impl View for Path { type V = Name; uninterp spec fn view(&self) -> Name; }
uninterp spec fn join(a: Name, b: Name) -> Name;
uninterp spec fn has_parent(p: Name) -> bool;
impl Path {
    #[verifier::external_body]
    fn join(&self, p: &Path) -> (r: Path) ensures r@ == join(self@, p@) { unimplemented!() }
    #[verifier::external_body]
    fn parent(&self) -> (r: Option<&Path>) ensures has_parent(self@) ==> r is Some { unimplemented!() }
    #[verifier::external_body]
    fn as_os_str(&self) -> (r: &OsStr) ensures r.name() == self@ { unimplemented!() }
}
#[verifier::external_body]
struct OsStr { x: u8 }
#[verifier::external_body]
struct OsBytes { x: u8 }
#[verifier::external_body]
struct CString { x: u8 }
#[verifier::external_body]
struct CPtr { x: u8 }
impl OsStr { uninterp spec fn name(&self) -> Name; #[verifier::external_body] fn as_bytes(&self) -> (r: &OsBytes) ensures r.name() == self.name() { unimplemented!() } }
impl OsBytes { uninterp spec fn name(&self) -> Name; }
impl CString { uninterp spec fn name(&self) -> Name; #[verifier::external_body] fn as_ptr(&self) -> (r: CPtr) ensures r.name() == self.name() { unimplemented!() } }
impl CPtr { uninterp spec fn name(&self) -> Name; }
/// a text without a zero byte
#[verifier::external_body]
fn vx_cstring(b: &OsBytes) -> (r: Result<CString, IoErr>) ensures r is Ok ==> (r->Ok_0).name() == b.name(), r is Err ==> !statable(b.name()) { unimplemented!() }
struct Statfs { f_type: i64, f_bsize: i64, f_blocks: u64 }
#[verifier::external_body]
fn vx_zeroed() -> (r: Statfs) { unimplemented!() }
uninterp spec fn statable(p: Name) -> bool;
uninterp spec fn fs_type(p: Name) -> i64;
axiom fn nfs_means(p: Name) ensures on_nfs(p) <==> statable(p) && fs_type(p) as u32 == NFS_SUPER_MAGIC as u32;
#[verifier::external_body]
fn libc_statfs(p: CPtr, b: &mut Statfs) -> (r: i32) ensures r == 0 <==> statable(p.name()), r == 0 ==> final(b).f_type == fs_type(p.name()) { unimplemented!() }
#[verifier::external_body]
struct File { x: u8 }
impl File {
    /// which open file this is (a duplicate would be the same)
    uninterp spec fn h(&self) -> int;
    #[verifier::external_body]
    fn as_raw_fd(&self) -> (r: Fd) ensures r.h() == self.h() { unimplemented!() }
}
#[verifier::external_body]
struct Fd { x: u8 }
impl Fd { uninterp spec fn h(&self) -> int; }
struct OpenOptions { r: bool, w: bool, c: bool, t: bool, a: bool }
impl OpenOptions {
    fn new() -> (r: OpenOptions) ensures r == (OpenOptions { r: false, w: false, c: false, t: false, a: false }) { OpenOptions { r: false, w: false, c: false, t: false, a: false } }
    fn read(&mut self, b: bool) -> (r: &mut OpenOptions) ensures *r == (OpenOptions { r: b, ..*old(self) }), *final(self) == *final(r) { self.r = b; self }
    fn write(&mut self, b: bool) -> (r: &mut OpenOptions) ensures *r == (OpenOptions { w: b, ..*old(self) }), *final(self) == *final(r) { self.w = b; self }
    fn create(&mut self, b: bool) -> (r: &mut OpenOptions) ensures *r == (OpenOptions { c: b, ..*old(self) }), *final(self) == *final(r) { self.c = b; self }
    fn truncate(&mut self, b: bool) -> (r: &mut OpenOptions) ensures *r == (OpenOptions { t: b, ..*old(self) }), *final(self) == *final(r) { self.t = b; self }
    fn append(&mut self, b: bool) -> (r: &mut OpenOptions) ensures *r == (OpenOptions { a: b, ..*old(self) }), *final(self) == *final(r) { self.a = b; self }
    /// a new handle, without a lock; creates the file if asked to, empties it if asked to
    #[verifier::external_body]
    fn open(&self, p: &Path, Tracked(w): Tracked<&mut World>) -> (r: Result<File, IoErr>)
        ensures
            r is Err ==> *final(w) == (World { errno: final(w).errno, ..*old(w) }),
            r is Ok ==> {
                let h = (r->Ok_0).h();
                &&& !old(w).file.dom().contains(h) && !old(w).locks.dom().contains(h)
                &&& final(w).file == old(w).file.insert(h, p@) && final(w).locks == old(w).locks
                &&& final(w).data == opened(old(w).data, p@, *self)
                &&& old(w).data.dom().contains(p@) || self.c
            } { unimplemented!() }
}
spec fn opened(d: Map<Name, Seq<u8>>, p: Name, o: OpenOptions) -> Map<Name, Seq<u8>> {
    if !d.dom().contains(p) || o.t { d.insert(p, Seq::empty()) } else { d }
}
#[verifier::external_body]
fn create_dir_all(p: &Path, Tracked(w): Tracked<&mut World>) -> (r: Result<(), AnyErr>) ensures *final(w) == *old(w) { unimplemented!() }

// ---- the system calls -----------------------------------------------------------------------
/// flock(2). While it waits, other holders come and go; it never returns a lock that conflicts with another.
#[verifier::external_body]
fn libc_flock(fd: Fd, op: i32, Tracked(w): Tracked<&mut World>) -> (r: i32)
    requires op == LOCK_SH || op == LOCK_EX || op == 5 || op == 6 || op == LOCK_UN, old(w).file.dom().contains(fd.h())
    ensures
        kin(*old(w), *final(w)),
        r == 0 || r == -1,
        op == LOCK_UN && r == 0 ==> final(w).locks == old(w).locks.remove(fd.h()),
        r == 0 && (op == LOCK_SH || op == 5) ==> granted(*final(w), fd.h(), Mode::Shared),
        r == 0 && (op == LOCK_EX || op == 6) ==> granted(*final(w), fd.h(), Mode::Exclusive),
        // only a request that must not wait can find the file taken
        r == -1 && final(w).errno == EWOULDBLOCK ==> (op == 5 || op == 6) && contended(*final(w), fd.h(), if op == 5 { Mode::Shared } else { Mode::Exclusive }),
        r == -1 && unsupported(final(w).errno) ==> no_locks(old(w).file[fd.h()]),
        r == -1 ==> final(w).locks == old(w).locks,
    { unimplemented!() }
/// the file system of this file has no locks
uninterp spec fn no_locks(p: Name) -> bool;
#[verifier::external_body]
fn last_os_error(Tracked(w): Tracked<&mut World>) -> (r: IoErr) ensures *final(w) == *old(w), r.os() == old(w).errno { unimplemented!() }

//@type crates/tinymist-std/src/fs/flock.rs FileLock
//@type crates/tinymist-std/src/fs/flock.rs Filesystem
spec fn exempt(p: Name) -> bool { on_nfs(p) || no_locks(p) }
spec fn held(w: World, f: FileLock, p: Name, m: Mode) -> bool {
    f.f is Some && w.file.dom().contains(f.f->0.h()) && w.file[f.f->0.h()] == p && (granted(w, f.f->0.h(), m) || exempt(p))
}
/// what opening may change: nothing in files that exist, and a new file is empty
spec fn kept(o: World, n: World, p: Name) -> bool {
    n.data == o.data || !o.data.dom().contains(p) && n.data == o.data.insert(p, Seq::empty())
}
/// the answer of an attempt that does not wait
spec fn tried(o: World, n: World, p: Name, m: Mode, r: Result<Option<FileLock>, AnyErr>) -> bool {
    &&& kept(o, n, p)
    &&& r is Ok && r->Ok_0 is Some ==> held(n, r->Ok_0->0, p, m)
    &&& r is Ok && r->Ok_0 is None ==> exists|h: int| !o.file.dom().contains(h) && n.file.dom().contains(h) && n.file[h] == p && #[trigger] contended(n, h, m)
}
/// the answer of an attempt that waits
spec fn waited(o: World, n: World, p: Name, m: Mode, r: Result<FileLock, AnyErr>) -> bool {
    &&& kept(o, n, p)
    &&& r is Ok ==> held(n, r->Ok_0, p, m)
}
/// `r` is the outcome of a lock call on `f`
spec fn locked(o: World, n: World, f: File, m: Mode, wait: bool, r: Result<(), IoErr>) -> bool {
    &&& kin(o, n)
    &&& r is Ok ==> granted(n, f.h(), m)
    &&& r is Err ==> n.locks == o.locks
    &&& r is Err && (r->Err_0).os() == EWOULDBLOCK ==> !wait && contended(n, f.h(), m)
    &&& r is Err && unsupported((r->Err_0).os()) ==> no_locks(o.file[f.h()])
}
//@fn crates/tinymist-std/src/fs/flock.rs flock C13
//@world Tracked(w): Tracked<&mut World>
//@ret r
requires flag == LOCK_SH || flag == LOCK_EX || flag == 5 || flag == 6 || flag == LOCK_UN, old(w).file.dom().contains(file.h())
ensures
    flag == LOCK_SH ==> locked(*old(w), *final(w), *file, Mode::Shared, true, r),
    flag == LOCK_EX ==> locked(*old(w), *final(w), *file, Mode::Exclusive, true, r),
    flag == 5 ==> locked(*old(w), *final(w), *file, Mode::Shared, false, r),
    flag == 6 ==> locked(*old(w), *final(w), *file, Mode::Exclusive, false, r),
    flag == LOCK_UN ==> kin(*old(w), *final(w)) && (r is Ok ==> final(w).locks == old(w).locks.remove(file.h())),
//@end
//@fn crates/tinymist-std/src/fs/flock.rs lock_shared C13
//@world Tracked(w): Tracked<&mut World>
//@ret r
//@entry
    assert(1i32 | 4i32 == 5i32 && 2i32 | 4i32 == 6i32) by (bit_vector);
//@spec
requires old(w).file.dom().contains(file.h())
ensures locked(*old(w), *final(w), *file, Mode::Shared, true, r),
//@end
//@fn crates/tinymist-std/src/fs/flock.rs lock_exclusive C13
//@world Tracked(w): Tracked<&mut World>
//@ret r
//@entry
    assert(1i32 | 4i32 == 5i32 && 2i32 | 4i32 == 6i32) by (bit_vector);
//@spec
requires old(w).file.dom().contains(file.h())
ensures locked(*old(w), *final(w), *file, Mode::Exclusive, true, r),
//@end
//@fn crates/tinymist-std/src/fs/flock.rs try_lock_shared C13
//@world Tracked(w): Tracked<&mut World>
//@ret r
//@entry
    assert(1i32 | 4i32 == 5i32 && 2i32 | 4i32 == 6i32) by (bit_vector);
//@spec
requires old(w).file.dom().contains(file.h())
ensures locked(*old(w), *final(w), *file, Mode::Shared, false, r),
//@end
//@fn crates/tinymist-std/src/fs/flock.rs try_lock_exclusive C13
//@world Tracked(w): Tracked<&mut World>
//@ret r
//@entry
    assert(1i32 | 4i32 == 5i32 && 2i32 | 4i32 == 6i32) by (bit_vector);
//@spec
requires old(w).file.dom().contains(file.h())
ensures locked(*old(w), *final(w), *file, Mode::Exclusive, false, r),
//@end
//@fn crates/tinymist-std/src/fs/flock.rs unlock C13
//@world Tracked(w): Tracked<&mut World>
//@ret r
requires old(w).file.dom().contains(file.h())
ensures kin(*old(w), *final(w)), r is Ok ==> final(w).locks == old(w).locks.remove(file.h()),
//@end
//@fn crates/tinymist-std/src/fs/flock.rs error_contended C13
//@ret r
ensures r == (err.os() == EWOULDBLOCK),
//@end
//@fn crates/tinymist-std/src/fs/flock.rs error_unsupported C13
//@ret r
ensures r == unsupported(err.os()),
//@end
//@fn crates/tinymist-std/src/fs/flock.rs is_on_nfs_mount C13
//@ret r
//@entry
    proof { nfs_means(path@); }
//@spec
ensures r == on_nfs(path@),
//@end
impl FileLock {
    /// releasing: what `drop` does
    //@fn crates/tinymist-std/src/fs/flock.rs Drop@FileLock::drop as release C13
    //@world Tracked(w): Tracked<&mut World>
    requires old(self).f is Some ==> old(w).file.dom().contains(old(self).f->0.h())
    ensures final(self).f is None, kin(*old(w), *final(w)),
    //@end
}
impl Filesystem {
    //@fn crates/tinymist-std/src/fs/flock.rs Filesystem::open C13
    //@world Tracked(w): Tracked<&mut World>
    //@ret r
    requires has_parent(join(self.root@, path@)),
    ensures
        r is Err ==> final(w).data == old(w).data,
        r is Ok ==> {
            let (p, f) = r->Ok_0;
            &&& p@ == join(self.root@, path@)
            &&& !old(w).file.dom().contains(f.h()) && final(w).file == old(w).file.insert(f.h(), p@) && final(w).locks == old(w).locks && !old(w).locks.dom().contains(f.h())
            &&& final(w).data == opened(old(w).data, p@, *opts)
            &&& old(w).data.dom().contains(p@) || opts.c
        },
    //@end
    //@fn crates/tinymist-std/src/fs/flock.rs Filesystem::try_open_rw_exclusive_create C13
    //@sig fn try_open_rw_exclusive_create(&self, path: &Path, Tracked(w): Tracked<&mut World>) -> (r: Result<Option<FileLock>, AnyErr>)
    requires has_parent(join(self.root@, path@)),
    ensures tried(*old(w), *final(w), join(self.root@, path@), Mode::Exclusive, r),
    //@end
    //@fn crates/tinymist-std/src/fs/flock.rs Filesystem::try_open_ro_shared_create C13
    //@sig fn try_open_ro_shared_create(&self, path: &Path, Tracked(w): Tracked<&mut World>) -> (r: Result<Option<FileLock>, AnyErr>)
    requires has_parent(join(self.root@, path@)),
    ensures tried(*old(w), *final(w), join(self.root@, path@), Mode::Shared, r),
    //@end
    //@fn crates/tinymist-std/src/fs/flock.rs Filesystem::open_rw_exclusive_create C13
    //@sig fn open_rw_exclusive_create(&self, path: &Path, msg: &str, Tracked(w): Tracked<&mut World>) -> (r: Result<FileLock, AnyErr>)
    requires has_parent(join(self.root@, path@)),
    ensures waited(*old(w), *final(w), join(self.root@, path@), Mode::Exclusive, r),
    //@end
    //@fn crates/tinymist-std/src/fs/flock.rs Filesystem::open_ro_shared_create C13
    //@sig fn open_ro_shared_create(&self, path: &Path, msg: &str, Tracked(w): Tracked<&mut World>) -> (r: Result<FileLock, AnyErr>)
    requires has_parent(join(self.root@, path@)),
    ensures waited(*old(w), *final(w), join(self.root@, path@), Mode::Shared, r),
    //@end
    //@fn crates/tinymist-std/src/fs/flock.rs Filesystem::open_ro_shared C13
    //@sig fn open_ro_shared(&self, path: &Path, msg: &str, Tracked(w): Tracked<&mut World>) -> (r: Result<FileLock, AnyErr>)
    requires has_parent(join(self.root@, path@)),
    ensures waited(*old(w), *final(w), join(self.root@, path@), Mode::Shared, r),
    //@end
}
}
fn main() {}
