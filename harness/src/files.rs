//! C12, C13: file replacement and file locks, with failing or killing system calls (seccomp) in child processes.
use crate::vx::{Ctx, Rng};
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use tinymist_std::fs::paths;

const NO_FAULTS: i32 = 99;

/// make the next system call of a group fail with an error or kill the process; false: not possible here
pub fn fault(group: &str, errno: Option<i32>) -> bool {
    use libc::*;
    // number, the argument to look at, and the least value or (negative) the bits it must have
    let calls: Vec<(c_long, Option<(u32, i64)>)> = match group {
        "create" => vec![(SYS_openat, Some((2, -(O_CREAT as i64)))), (SYS_open, Some((1, -(O_CREAT as i64))))],
        "write" => vec![(SYS_write, Some((0, 3))), (SYS_pwrite64, Some((0, 3))), (SYS_writev, Some((0, 3))), (SYS_copy_file_range, None), (SYS_sendfile, None)],
        "read" => vec![(SYS_read, Some((0, 3))), (SYS_pread64, Some((0, 3)))],
        "mode" => vec![(SYS_fchmod, None), (SYS_chmod, None), (SYS_fchmodat, None)],
        "rename" => vec![(SYS_rename, None), (SYS_renameat, None), (SYS_renameat2, None), (SYS_link, None), (SYS_linkat, None)],
        "truncate" => vec![(SYS_ftruncate, None), (SYS_truncate, None)],
        "seek" => vec![(SYS_lseek, None)],
        "flock" => vec![(SYS_flock, None)],
        "flock_sh" => vec![(SYS_flock, Some((1, -(LOCK_SH as i64))))],
        "flock_ex" => vec![(SYS_flock, Some((1, -(LOCK_EX as i64))))],
        "flock_nb" => vec![(SYS_flock, Some((1, -(LOCK_NB as i64))))],
        "flock_un" => vec![(SYS_flock, Some((1, -(LOCK_UN as i64))))],
        _ => return false,
    };
    let st = |code: u32, jt: u8, jf: u8, k: u32| sock_filter { code: code as u16, jt, jf, k };
    let act = match errno {
        Some(e) => SECCOMP_RET_ERRNO | e as u32,
        None => SECCOMP_RET_KILL_PROCESS,
    };
    let mut f = vec![];
    for (nr, check) in calls {
        f.push(st(BPF_LD | BPF_W | BPF_ABS, 0, 0, 0));
        match check {
            None => f.push(st(BPF_JMP | BPF_JEQ | BPF_K, 0, 1, nr as u32)),
            Some((arg, v)) => {
                f.push(st(BPF_JMP | BPF_JEQ | BPF_K, 0, 3, nr as u32));
                f.push(st(BPF_LD | BPF_W | BPF_ABS, 0, 0, 16 + 8 * arg));
                f.push(if v < 0 { st(BPF_JMP | BPF_JSET | BPF_K, 0, 1, -v as u32) } else { st(BPF_JMP | BPF_JGE | BPF_K, 0, 1, v as u32) });
            }
        }
        f.push(st(BPF_RET | BPF_K, 0, 0, act));
    }
    f.push(st(BPF_RET | BPF_K, 0, 0, SECCOMP_RET_ALLOW));
    let p = sock_fprog { len: f.len() as u16, filter: f.as_mut_ptr() };
    unsafe {
        prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p as *const _) == 0
    }
}

/// child: run one operation with a fault; exit 0 done, 1 refused, 3 panicked
pub fn child(a: &[String]) -> ! {
    let (op, path, data, flt) = (&a[0], PathBuf::from(&a[1]), fs::read(&a[2]).unwrap(), &a[3]);
    std::panic::set_hook(Box::new(|_| {}));
    let (kind, arg) = flt.split_once(':').unwrap_or((flt, ""));
    let ok = match kind {
        "none" => true,
        "err" => fault(arg, Some(libc::EIO)),
        "kill" => fault(arg, None),
        "short" | "shortkill" => unsafe {
            let n: u64 = arg.parse().unwrap();
            if kind == "short" {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            } else {
                libc::signal(libc::SIGXFSZ, libc::SIG_DFL);
            }
            libc::setrlimit(libc::RLIMIT_FSIZE, &libc::rlimit { rlim_cur: n, rlim_max: n }) == 0
        },
        _ => false,
    };
    if !ok {
        std::process::exit(NO_FAULTS);
    }
    let r = std::panic::catch_unwind(|| match op.as_str() {
        "write_atomic" => paths::write_atomic(&path, &data).is_ok(),
        "write_if_changed" => paths::write_if_changed(&path, &data).is_ok(),
        "append" => paths::append(&path, &data).is_ok(),
        _ => paths::write(&path, &data).is_ok(),
    });
    std::process::exit(match r {
        Ok(true) => 0,
        Ok(false) => 1,
        Err(_) => 3,
    })
}

type State = Option<(Vec<u8>, u32)>;
fn state(p: &Path) -> State {
    let m = fs::symlink_metadata(p).ok()?;
    Some((if m.is_dir() { b"(directory)".to_vec() } else { fs::read(p).unwrap_or_default() }, m.permissions().mode() & 0o7777))
}
fn show(s: &State) -> String {
    match s {
        None => "no file".into(),
        Some((d, m)) => format!("{} bytes {:?}.., mode {m:o}", d.len(), String::from_utf8_lossy(&d[..d.len().min(24)])),
    }
}
fn content(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0, 1, 5, 100, 4096, 70000, 300000]);
    let b = r.next() as u8;
    (0..n).map(|i| b.wrapping_add((i / 7) as u8)).collect()
}

pub fn replacement(cx: &mut Ctx) {
    cx.rule = "each writing helper on absent, present and blocked destinations, with each kind of system call failing, killing the process or writing short".into();
    let top = cx.dir.join("files");
    let _ = fs::create_dir_all(&top);
    let exe = std::env::current_exe().unwrap();
    let ops = ["write_atomic", "write_atomic", "write_atomic", "write_if_changed", "append", "write"];
    let faults = ["none", "none", "none", "err:create", "err:write", "err:mode", "err:rename", "err:read", "err:truncate", "err:seek",
        "kill:create", "kill:write", "kill:mode", "kill:rename", "kill:read", "kill:truncate", "kill:seek", "short:3000", "shortkill:3000", "short:0", "shortkill:65536"];
    let mut n = 0;
    while cx.more(n, 900, 12000) {
        let mut r = Rng(cx.rng.next());
        let op = ops[n as usize % ops.len()];
        let flt = faults[(n as usize / ops.len()) % faults.len()];
        n += 1;
        let dir = top.join(format!("d{n}"));
        fs::create_dir_all(&dir).unwrap();
        let new = content(&mut r);
        let src = top.join("content");
        fs::write(&src, &new).unwrap();
        let dest = dir.join(*r.pick(&["f", "Cargo.toml", "a b ä", ".hidden"]));
        let before: State = match r.below(8) {
            0 | 1 => None,
            2 if op == "write_atomic" => {
                fs::create_dir_all(dest.join("x")).unwrap();
                state(&dest)
            }
            k => {
                let old = match k {
                    3 => new.clone(),
                    4 => [&new[..new.len() / 2], &[1u8][..]].concat(),
                    5 => [&new[..], b"more"].concat(),
                    _ => content(&mut r),
                };
                fs::write(&dest, &old).unwrap();
                let m = *r.pick(&[0o644, 0o600, 0o755, 0o444, 0o777, 0o400, 0o4755, 0o640]);
                fs::set_permissions(&dest, fs::Permissions::from_mode(m)).unwrap();
                state(&dest)
            }
        };
        let isdir = dest.is_dir();
        // the destination may be a link to where the file is
        let linked = before.is_some() && !isdir && r.chance(1, 8);
        let far = top.join("linked");
        if linked {
            let _ = fs::remove_file(&far);
            fs::rename(&dest, &far).unwrap();
            std::os::unix::fs::symlink(&far, &dest).unwrap();
        }
        let state = |p: &Path| state(&if linked && p == dest { fs::canonicalize(p).unwrap_or_else(|_| p.to_owned()) } else { p.to_owned() });
        let other = dir.join("other");
        fs::write(&other, b"untouched").unwrap();
        let long_ago = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000);
        if before.is_some() && !isdir {
            let _ = fs::File::options().read(true).open(&dest).and_then(|f| f.set_modified(long_ago));
        }
        let what = format!("{op} of {} bytes, fault {flt}, destination {}{}", new.len(), if linked { "a link to " } else { "" }, show(&before));
        cx.case(&what);
        let st = Command::new(&exe).args(["files-child", op]).arg(&dest).arg(&src).arg(flt).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap();
        if st.code() == Some(NO_FAULTS) {
            cx.eval("");
            let _ = fs::remove_dir_all(&dir);
            continue;
        }
        let after = state(&dest);
        let mut left: Vec<String> = fs::read_dir(&dir).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).filter(|f| *f != "other" && Path::new(f) != Path::new(dest.file_name().unwrap())).collect();
        left.sort();
        let done = st.code() == Some(0);
        let mut bad: Option<(&str, String)> = None;
        let mut say = |c: bool, what: &'static str, want: String| {
            if !c && bad.is_none() {
                bad = Some((what, want));
            }
        };
        say(st.code() != Some(3), "panicked", "no panic".into());
        say(state(&other).map(|s| s.0) == Some(b"untouched".to_vec()), "another file changed", "unchanged".into());
        if flt == "none" && !isdir {
            say(done, "refused without a fault", "done".into());
        }
        if op == "write_atomic" {
            let good: State = Some((new.clone(), before.as_ref().map(|b| b.1 & 0o777).unwrap_or(0o600)));
            if done {
                say(after == good, "after success", show(&good));
                say(left.is_empty(), "files left behind", "none".into());
            } else if st.signal().is_none() {
                say(after == before, "after a failure", show(&before));
                say(left.is_empty(), "files left behind", "none".into());
            } else {
                say(after == before || after == good, "after a crash", format!("{} or {}", show(&before), show(&good)));
            }
        } else if done {
            let want = if op == "append" { [before.clone().map(|b| b.0).unwrap_or_default(), new.clone()].concat() } else { new.clone() };
            say(after.as_ref().map(|a| &a.0) == Some(&want), "content after success", format!("{} bytes", want.len()));
            if let (Some(b), Some(a)) = (&before, &after) {
                say(a.1 & 0o777 == b.1 & 0o777, "permissions after success", format!("{:o}", b.1));
            }
            say(left.is_empty(), "files left behind", "none".into());
        }
        if op == "write_if_changed" && before.as_ref().is_some_and(|b| b.0 == new) {
            let t = fs::metadata(&dest).and_then(|m| m.modified());
            say(after == before && t.is_ok_and(|t| t == long_ago), "touched although it has the content", "untouched".into());
        }
        if let Some((w, want)) = bad {
            cx.fail(w, &what, &want, &format!("{}, exit {st}, left {left:?}", show(&after)));
        }
        cx.eval(if flt == "none" { "" } else { &what });
        let _ = fs::remove_dir_all(&dir);
    }
    let _ = fs::remove_dir_all(&top);
}

// ---- C13 ------------------------------------------------------------------------------------
use tinymist_std::fs::flock::{FileLock, Filesystem};
const LOCK_OPS: [&str; 5] = ["try_rw", "try_ro", "rw", "ro_create", "ro"];
/// Some(Some) granted, Some(None) contended
fn lock_op(root: &Path, op: &str, name: &str) -> Result<Option<FileLock>, String> {
    let fs = Filesystem::new(root.to_owned());
    let e = |e: anyhow::Error| format!("{e:#}");
    match op {
        "try_rw" => fs.try_open_rw_exclusive_create(name).map_err(e),
        "try_ro" => fs.try_open_ro_shared_create(name).map_err(e),
        "rw" => fs.open_rw_exclusive_create(name, "test").map(Some).map_err(e),
        "ro_create" => fs.open_ro_shared_create(name, "test").map(Some).map_err(e),
        _ => fs.open_ro_shared(name, "test").map(Some).map_err(e),
    }
}
/// child: one lock request while flock(2) fails with an error; exit 0 granted, 1 contended, 2 error, 3 panic
pub fn lock_child(a: &[String]) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let errno: i32 = a[3].parse().unwrap();
    let group = a.get(4).map_or("flock", |g| g);
    if errno != 0 && !fault(group, Some(errno)) {
        std::process::exit(NO_FAULTS);
    }
    let mut r = std::panic::catch_unwind(|| lock_op(Path::new(&a[0]), &a[1], &a[2]));
    if group == "flock_un" {
        // once let go, somebody else gets it
        drop(r);
        r = std::panic::catch_unwind(|| lock_op(Path::new(&a[0]), "try_rw", &a[2]));
    }
    std::process::exit(match r {
        Ok(Ok(Some(_))) => 0,
        Ok(Ok(None)) => 1,
        Ok(Err(_)) => 2,
        Err(_) => 3,
    })
}
fn how(r: &Result<Option<FileLock>, String>) -> String {
    match r {
        Ok(Some(_)) => "granted".into(),
        Ok(None) => "not acquired".into(),
        Err(e) => format!("error {e}"),
    }
}

pub fn locks(cx: &mut Ctx) {
    cx.rule = "random histories of lock requests and releases by several handles in this and another process against a reader/writer model, waiting requests, and flock(2) failing with each kind of error".into();
    let top = cx.dir.join("locks");
    let _ = fs::remove_dir_all(&top);
    let shm = PathBuf::from(format!("/dev/shm/vx-locks-{}", std::process::id()));
    let exe = std::env::current_exe().unwrap();
    // the operating system's answers
    use libc::*;
    for op in LOCK_OPS {
        let ex = op.ends_with("rw");
        let mut answers = vec![];
        for (errno, want) in [(0, "granted"), (EWOULDBLOCK, "contended"), (ENOSYS, "granted"), (EOPNOTSUPP, "granted"), (EIO, "error"), (ENOLCK, "error"), (EINVAL, "error"), (EPERM, "error"), (EACCES, "error"), (ENOENT, "error"), (EINTR, "error"), (EBADF, "error"), (EDEADLK, "error"), (ENOSPC, "error"), (ESTALE, "error")] {
            answers.push(("flock", errno, want));
        }
        answers.push((if ex { "flock_ex" } else { "flock_sh" }, EIO, "error"));
        answers.push((if ex { "flock_sh" } else { "flock_ex" }, EIO, "granted"));
        answers.push(("flock_nb", EIO, "error"));
        answers.push(("flock_un", EIO, "granted"));
        for (group, errno, want) in answers {
            let _ = fs::create_dir_all(&top);
            let f = top.join("f");
            fs::write(&f, b"content").unwrap();
            let want = if want == "contended" && !op.starts_with("try") { "error" } else { want };
            let show = format!("{op} while {group} fails with errno {errno}");
            cx.case(&show);
            let c = Command::new(&exe).arg("lock-child").arg(&top).args([op, "f", &errno.to_string(), group]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap();
            let got = match c.code() {
                Some(NO_FAULTS) => continue,
                Some(0) => "granted",
                Some(1) => "contended",
                Some(2) => "error",
                _ => "panic or signal",
            };
            if got != want {
                cx.fail("answer to the system's error", &show, want, got);
                return;
            }
            if fs::read(&f).unwrap() != b"content" {
                cx.fail("content changed by locking", &show, "content", &format!("{:?}", fs::read(&f)));
                return;
            }
            cx.eval(&show);
        }
    }
    let mut n = 0;
    while cx.more(n, 60, 3000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        // on another file system too
        let root = if n % 5 == 0 && fs::create_dir_all(&shm).is_ok() { shm.join(format!("h{n}")) } else { top.join(format!("h{n}")) };
        let sub = r.chance(1, 2);
        let names: Vec<String> = (0..2).map(|i| if sub { format!("deep/er/f{i}") } else { format!("f{i}") }).collect();
        if !sub { fs::create_dir_all(&root).unwrap(); }
        let mut held: Vec<(usize, bool, FileLock)> = vec![];
        let mut there: Vec<Option<Vec<u8>>> = vec![None, None];
        let mut log = String::new();
        for _ in 0..r.range(2, 14) {
            let i = r.below(2);
            let ex = r.chance(1, 2);
            let free = |held: &Vec<(usize, bool, FileLock)>, i: usize, ex: bool| !held.iter().any(|(j, e, _)| *j == i && (ex || *e));
            let step = r.below(8);
            match step {
                0 | 1 | 2 | 7 => {
                    let op = if ex { "try_rw" } else { "try_ro" };
                    log.push_str(&format!("{op} {i}; "));
                    cx.case(&log);
                    let want = if free(&held, i, ex) { "granted" } else { "not acquired" };
                    let got;
                    if step == 7 {
                        // from another process, which lets go again
                        let c = Command::new(&exe).arg("lock-child").arg(&root).args([op, &names[i], "0"]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap();
                        got = match c.code() { Some(0) => "granted", Some(1) => "not acquired", _ => "error" }.to_owned();
                    } else {
                        let Some(a) = cx.guard(op, &log, || lock_op(&root, op, &names[i])) else { return };
                        got = how(&a);
                        if let Ok(Some(l)) = a { held.push((i, ex, l)); }
                    }
                    there[i].get_or_insert(vec![]);
                    if got != want {
                        cx.fail("lock request", &log, want, &got);
                        return;
                    }
                }
                3 if !held.is_empty() => {
                    let k = r.below(held.len());
                    let (i, _, l) = held.remove(k);
                    log.push_str(&format!("release {i}; "));
                    drop(l);
                }
                4 => {
                    // whoever holds it may write
                    if let Some((i, true, l)) = held.first_mut() {
                        use std::io::{Seek, Write};
                        let d = content(&mut Rng(r.next()));
                        let d = &d[..d.len().min(5000)];
                        let _ = l.file().set_len(0);
                        let _ = l.rewind();
                        let _ = l.write_all(d);
                        there[*i] = Some(d.to_vec());
                        log.push_str(&format!("write {i}; "));
                    }
                }
                5 => {
                    // a request that may have to wait
                    let op = if ex { "rw" } else if r.chance(1, 2) || there[i].is_none() { "ro_create" } else { "ro" };
                    log.push_str(&format!("{op} {i}; "));
                    cx.case(&log);
                    let (root2, name, op2) = (root.clone(), names[i].clone(), op.to_owned());
                    let (tx, rx) = std::sync::mpsc::channel();
                    std::thread::spawn(move || { let _ = tx.send(lock_op(&root2, &op2, &name)); });
                    let wait = !free(&held, i, ex);
                    let secs = |s| std::time::Duration::from_millis(s);
                    let mut got = rx.recv_timeout(if wait { secs(15) } else { secs(20000) }).ok();
                    if wait {
                        if let Some(g) = &got {
                            cx.fail("a waiting request returned", &log, "waits while the file is taken", &how(g));
                            return;
                        }
                        held.retain(|(j, e, _)| *j != i || !(ex || *e));
                        got = rx.recv_timeout(secs(20000)).ok();
                    }
                    there[i].get_or_insert(vec![]);
                    match got {
                        Some(Ok(Some(l))) => held.push((i, ex, l)),
                        g => {
                            cx.fail("a waiting request", &log, "granted once the file is free", &g.map(|g| how(&g)).unwrap_or("no answer".into()));
                            return;
                        }
                    }
                }
                _ => {
                    // a file that is not there is not created for reading
                    if there[i].is_none() {
                        log.push_str(&format!("ro {i}; "));
                        let Some(a) = cx.guard("ro", &log, || lock_op(&root, "ro", &names[i])) else { return };
                        if a.is_ok() || root.join(&names[i]).exists() {
                            cx.fail("read lock of a file that is not there", &log, "an error, no file", &how(&a));
                            return;
                        }
                    }
                }
            }
            // a handle reads the file it locks
            if let Some((i, _, l)) = held.last_mut() {
                use std::io::{Read, Seek};
                let mut d = vec![];
                let ok = l.rewind().and_then(|_| l.read_to_end(&mut d));
                if ok.is_err() || Some(&d) != there[*i].as_ref() {
                    cx.fail("reading through the handle", &log, &format!("file {i}: {:?}", there[*i].as_ref().map(|d| d.len())), &format!("{ok:?} {}", d.len()));
                    return;
                }
                if l.path() != root.join(&names[*i]) || l.parent() != root.join(&names[*i]).parent().unwrap() {
                    cx.fail("the path of the handle", &log, &names[*i], &l.path().display().to_string());
                    return;
                }
            }
            for i in 0..2 {
                let d = fs::read(root.join(&names[i])).ok();
                if d != there[i] {
                    cx.fail("content", &log, &format!("file {i}: {:?}", there[i].as_ref().map(|d| d.len())), &format!("{:?}", d.map(|d| d.len())));
                    return;
                }
            }
        }
        drop(held);
        cx.eval(&log);
        let _ = fs::remove_dir_all(&root);
    }
    let _ = fs::remove_dir_all(&top);
    let _ = fs::remove_dir_all(&shm);
}
