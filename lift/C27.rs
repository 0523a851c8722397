//@include ../lift/common.rs
//@include ../lift/vfs.rs
//@rw expr std::fs::metadata($x) => vx_metadata(&$x)
//@rw expr fs::metadata($x) => vx_metadata(&$x)
//@rw expr $x.metadata() => vx_metadata(&$x)
// C27: the file watcher: histories of file changes, watcher events, dependency syncs and rechecks, in virtual time.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use vx::{Ctx, Rng};
macro_rules! vx_log { ($($t:tt)*) => {{ let _ = format!($($t)*); }} }
#[allow(unused_imports)]
mod log {
    pub(crate) use {vx_log as trace, vx_log as debug, vx_log as info, vx_log as warn, vx_log as error};
}
type Held = Result<Vec<u8>, FileError>;
type Callback = Arc<dyn Fn(notify::Result<notify::Event>)>;
/// files, watches, the clock and the consumer
#[derive(Default)]
struct World {
    now: u64,
    files: BTreeMap<PathBuf, Held>,
    watched: BTreeSet<PathBuf>,
    refuse: BTreeSet<PathBuf>,
    blind: bool,
    prompt: bool,
    cb: Option<Callback>,
    tasks: Vec<Option<Pin<Box<dyn Future<Output = ()>>>>>,
    pick: u64,
    told: BTreeMap<PathBuf, Held>,
    ups: Vec<u32>,
    /// since when a file may be removed or truncated only for a moment
    since: BTreeMap<PathBuf, u64>,
    /// the last change cannot have escaped the watcher
    sure: BTreeMap<PathBuf, bool>,
    recent: VecDeque<BTreeSet<PathBuf>>,
    fails: Vec<(String, String, String)>,
    log: Vec<String>,
}
thread_local! { static W: RefCell<World> = RefCell::new(World::default()); }
fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}
fn held(w: &World, p: &Path) -> Held {
    w.files.get(p).cloned().unwrap_or_else(|| Err(FileError::NotFound(p.into())))
}
fn lapse(old: &Held, new: &Held) -> bool {
    if old == new {
        return false;
    }
    match new {
        Err(FileError::NotFound(..) | FileError::Other(..)) => true,
        Ok(t) => old.is_ok() && t.is_empty(),
        _ => false,
    }
}
pub struct Meta(bool);
impl Meta {
    pub fn is_dir(&self) -> bool {
        self.0
    }
    pub fn is_file(&self) -> bool {
        !self.0
    }
}
fn vx_metadata(p: &Path) -> std::io::Result<Meta> {
    with(|w| match w.files.get(p) {
        None => Err(std::io::ErrorKind::NotFound.into()),
        Some(Err(FileError::IsDirectory)) => Ok(Meta(true)),
        Some(_) => Ok(Meta(false)),
    })
}
pub trait PathAccessModel {
    fn content(&self, src: &Path) -> FileResult<Bytes>;
}
#[derive(Debug, Clone, Copy)]
pub struct SystemAccessModel;
impl PathAccessModel for SystemAccessModel {
    fn content(&self, src: &Path) -> FileResult<Bytes> {
        with(|w| held(w, src)).map(Bytes::new)
    }
}
mod notify {
    use super::*;
    #[derive(Debug)]
    pub struct Error;
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("error")
        }
    }
    pub type Result<T> = std::result::Result<T, Error>;
    #[derive(Clone, Debug)]
    pub struct Event {
        pub kind: EventKind,
        pub paths: Vec<PathBuf>,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum EventKind {
        Any,
        Access,
        Create,
        Modify(event::ModifyKind),
        Remove(event::RemoveKind),
        Other,
    }
    impl EventKind {
        pub fn is_remove(&self) -> bool {
            matches!(self, EventKind::Remove(_))
        }
        pub fn is_modify(&self) -> bool {
            matches!(self, EventKind::Modify(_))
        }
        pub fn is_create(&self) -> bool {
            matches!(self, EventKind::Create)
        }
        pub fn is_access(&self) -> bool {
            matches!(self, EventKind::Access)
        }
    }
    pub mod event {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum RemoveKind {
            Any,
            File,
            Folder,
            Other,
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum RenameMode {
            Any,
            To,
            From,
            Both,
            Other,
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum ModifyKind {
            Any,
            Data,
            Metadata,
            Name(RenameMode),
            Other,
        }
    }
    #[derive(Default)]
    pub struct Config;
    #[derive(Clone, Copy)]
    pub enum RecursiveMode {
        Recursive,
        NonRecursive,
    }
    #[derive(Debug)]
    pub struct RecommendedWatcher;
    pub trait Watcher: Sized {
        fn new(f: impl Fn(Result<Event>) + 'static, c: Config) -> Result<Self>;
        fn watch(&mut self, p: &Path, m: RecursiveMode) -> Result<()>;
        fn unwatch(&mut self, p: &Path) -> Result<()>;
    }
    impl Watcher for RecommendedWatcher {
        fn new(f: impl Fn(Result<Event>) + 'static, _: Config) -> Result<Self> {
            with(|w| {
                if w.blind {
                    return Err(Error);
                }
                w.cb = Some(Arc::new(f));
                Ok(RecommendedWatcher)
            })
        }
        fn watch(&mut self, p: &Path, _: RecursiveMode) -> Result<()> {
            with(|w| {
                if !w.files.contains_key(p) || w.refuse.contains(p) {
                    return Err(Error);
                }
                w.watched.insert(p.into());
                w.log.push(format!("t={} watch {p:?}", w.now));
                Ok(())
            })
        }
        fn unwatch(&mut self, p: &Path) -> Result<()> {
            with(|w| {
                w.log.push(format!("t={} unwatch {p:?}", w.now));
                if w.watched.remove(p) {
                    Ok(())
                } else {
                    Err(Error)
                }
            })
        }
    }
}
mod tinymist_std {
    pub mod time {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
        pub struct Instant(pub u64);
        impl Instant {
            pub fn now() -> Self {
                Instant(super::super::with(|w| w.now))
            }
            pub fn elapsed(&self) -> std::time::Duration {
                Self::now() - *self
            }
            pub fn duration_since(&self, o: Self) -> std::time::Duration {
                *self - o
            }
        }
        impl std::ops::Sub for Instant {
            type Output = std::time::Duration;
            fn sub(self, o: Self) -> std::time::Duration {
                std::time::Duration::from_millis(self.0.saturating_sub(o.0))
            }
        }
        impl std::ops::Add<std::time::Duration> for Instant {
            type Output = Self;
            fn add(self, d: std::time::Duration) -> Self {
                Instant(self.0 + d.as_millis() as u64)
            }
        }
    }
}
trait IgnoreLogging<T>: Sized {
    fn log_error(self, msg: &str) -> Option<T>;
}
impl<T, E: fmt::Display> IgnoreLogging<T> for Result<T, E> {
    fn log_error(self, _: &str) -> Option<T> {
        self.ok()
    }
}
fn waker() -> Waker {
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    unsafe { Waker::from_raw(clone(std::ptr::null())) }
}
fn vx_poll<F: Future>(f: F) -> Poll<F::Output> {
    let mut f = std::pin::pin!(f);
    f.as_mut().poll(&mut Context::from_waker(&waker()))
}
struct Once(bool);
impl Future for Once {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if std::mem::replace(&mut self.0, true) {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
fn vx_first() -> usize {
    with(|w| {
        w.pick = w.pick.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (w.pick >> 33) as usize
    })
}
/// tokio's select: the branches in an order by chance, the first that is ready and fits
macro_rules! vx_select {
    (biased; $($t:tt)*) => { vx_select!($($t)*) };
    ($($p:pat = $e:expr => $x:expr),+ $(,)?) => {
        loop {
            let vx_r = 'vx: {
                let vx_n = [$(stringify!($p)),+].len();
                let vx_first = vx_first() % vx_n;
                for vx_k in 0..vx_n {
                    let mut vx_i = 0;
                    $(
                        if vx_i == (vx_k + vx_first) % vx_n {
                            let vx_p = vx_poll($e);
                            if let Poll::Ready($p) = vx_p {
                                break 'vx Some($x);
                            }
                        }
                        vx_i += 1;
                    )+
                }
                None
            };
            match vx_r {
                Some(vx_v) => break vx_v,
                None => Once(false).await,
            }
        }
    };
}
mod tokio {
    pub(crate) use vx_select as select;
    pub fn spawn(f: impl std::future::Future<Output = ()> + 'static) {
        super::with(|w| w.tasks.push(Some(Box::pin(f))));
    }
    pub mod time {
        pub async fn sleep(d: std::time::Duration) {
            let end = super::super::with(|w| w.now) + d.as_millis() as u64;
            while super::super::with(|w| w.now) < end {
                super::super::Once(false).await;
            }
        }
    }
    pub mod sync {
        pub mod mpsc {
            use std::collections::VecDeque;
            use std::sync::{Arc, Mutex};
            pub struct UnboundedSender<T>(Arc<Mutex<VecDeque<T>>>);
            pub struct UnboundedReceiver<T>(Arc<Mutex<VecDeque<T>>>);
            impl<T> std::fmt::Debug for UnboundedSender<T> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("sender")
                }
            }
            impl<T> std::fmt::Debug for UnboundedReceiver<T> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("receiver")
                }
            }
            impl<T> Clone for UnboundedSender<T> {
                fn clone(&self) -> Self {
                    UnboundedSender(self.0.clone())
                }
            }
            pub mod error {
                pub struct SendError<T>(pub T);
                impl<T> std::fmt::Display for SendError<T> {
                    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                        f.write_str("closed")
                    }
                }
            }
            pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
                let q = Arc::new(Mutex::new(VecDeque::new()));
                (UnboundedSender(q.clone()), UnboundedReceiver(q))
            }
            impl<T> UnboundedSender<T> {
                pub fn send(&self, t: T) -> Result<(), error::SendError<T>> {
                    self.0.lock().unwrap().push_back(t);
                    Ok(())
                }
            }
            impl<T> UnboundedReceiver<T> {
                pub async fn recv(&mut self) -> Option<T> {
                    loop {
                        let x = self.0.lock().unwrap().pop_front();
                        match x {
                            Some(x) => return Some(x),
                            None => super::super::super::Once(false).await,
                        }
                    }
                }
            }
        }
    }
}
mod typst_diag {
    pub use super::FileError;
}
use self::notify::{Config, RecommendedWatcher, RecursiveMode, Watcher};
use self::tokio::sync::mpsc;
//@rawitems crates/tinymist-vfs/src/snapshot.rs FileSnapshot FileChangeSet
//@rawitems crates/tinymist-vfs/src/notify.rs FilesystemEvent UpstreamUpdateEvent NotifyDeps NotifyMessage
impl NotifyDeps for Vec<ImmutPath> {
    fn dependencies(&self, f: &mut dyn FnMut(&ImmutPath)) {
        for path in self.iter() {
            f(path);
        }
    }
}
//@rawitems crates/tinymist-project/src/watch.rs watch_deps +rw

/// what happened to a file, and what the watcher sees of it
fn change(w: &mut World, p: &Path, new: Option<Held>, kind: notify::EventKind, gone: bool) -> Option<notify::Event> {
    let old = held(w, p);
    match new {
        Some(c) => w.files.insert(p.into(), c),
        None => w.files.remove(p),
    };
    let seen = w.watched.contains(p);
    let now = held(w, p);
    let known = w.told.get(p).cloned();
    // a recheck to come reads the file again
    let pending = w.prompt && w.since.get(p).is_some_and(|t| w.now < t + 50);
    w.sure.insert(p.into(), seen || pending || old == now && w.sure.get(p).copied().unwrap_or(false));
    if let Some(k) = known {
        if lapse(&k, &now) {
            if seen {
                let t = w.now;
                w.since.entry(p.into()).or_insert(t);
            }
        } else if seen && now.is_ok() {
            w.since.remove(p);
        }
    }
    if gone {
        w.watched.remove(p);
    }
    seen.then(|| notify::Event { kind, paths: vec![p.into()] })
}
fn tell(e: FilesystemEvent) {
    with(|w| {
        let (c, up) = e.split();
        if let Some(up) = up {
            w.ups.push(*up.opaque.downcast::<u32>().unwrap());
        }
        for p in c.removes {
            if w.prompt && w.recent.iter().any(|d| d.contains(&*p)) {
                w.fails.push(("forgetting a file".into(), "no file among the latest dependencies is forgotten".into(), format!("{p:?}")));
            }
            w.told.remove(&*p);
            w.since.remove(&*p);
            w.log.push(format!("t={} forgotten {p:?}", w.now));
        }
        for (p, s) in c.inserts {
            let got: Held = s.content().map(|b| b.as_slice().to_vec());
            let is = held(w, &p);
            w.log.push(format!("t={} told {p:?} {got:?}", w.now));
            if got != is {
                w.fails.push((format!("content told for {p:?}"), format!("{is:?}"), format!("{got:?}")));
            }
            if let Some(k) = w.told.get(&*p) {
                if *k == got && !w.blind {
                    w.fails.push((format!("an unchanged file {p:?}"), "not told again".into(), format!("{got:?}")));
                }
                if lapse(k, &got) && w.prompt && !w.blind && !w.since.get(&*p).is_some_and(|t| w.now >= t + 50) {
                    w.fails.push((format!("a removal or truncation of {p:?}"), "told 50 ms later at the earliest".into(), format!("{got:?} at {}, removed or truncated at {:?}", w.now, w.since.get(&*p))));
                }
            }
            w.told.insert(p.to_path_buf(), got);
            w.since.remove(&*p);
        }
    })
}
/// runs everything that can run
fn run_tasks(rounds: usize) {
    for _ in 0..rounds {
        let n = with(|w| w.tasks.len());
        for i in 0..n {
            let t = with(|w| w.tasks[i].take());
            if let Some(mut t) = t {
                if t.as_mut().poll(&mut Context::from_waker(&waker())).is_pending() {
                    with(|w| w.tasks[i] = Some(t));
                }
            }
        }
        with(|w| w.tasks.retain(|t| t.is_some()));
    }
}
fn main() {
    let mut cx = Ctx::new();
    cx.rule = "histories of file changes (write, truncate, remove, rename away, replace, lose permission, restore), watcher events at once or late, dependency syncs, upstream updates and time, for four files; with and without a watcher".into();
    let paths: Vec<PathBuf> = ["/w/a.typ", "/w/b.typ", "/w/ü.typ", "/w/d"].iter().map(PathBuf::from).collect();
    let mut n = 0;
    while cx.more(n, 6000, 400000) && !cx.failed() {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let blind = r.chance(1, 6);
        let prompt = r.chance(2, 3);
        with(|w| {
            *w = World { blind, prompt, pick: r.next(), ..Default::default() };
            for (i, p) in paths.iter().enumerate() {
                match r.below(5) {
                    0 => {}
                    1 if i == 3 => drop(w.files.insert(p.clone(), Err(FileError::IsDirectory))),
                    2 if i > 0 => drop(w.files.insert(p.clone(), Ok(vec![]))),
                    _ => drop(w.files.insert(p.clone(), Ok(format!("text {i}").into_bytes()))),
                }
            }
            w.log.push(format!("watcher={} prompt={prompt} files={:?}", !blind, w.files));
        });
        let (tx, rx) = mpsc::unbounded_channel();
        // watch_deps only spawns
        let _ = vx_poll(watch_deps(rx, tell));
        let (mut sent, mut deps): (Vec<u32>, BTreeSet<PathBuf>) = Default::default();
        let mut texts = 0u32;
        let mut steps = r.range(3, 24);
        let mut burst = 0;
        let mut hot = r.below(paths.len());
        let mut first = true;
        while steps > 0 {
            steps -= 1;
            if r.chance(1, 4) {
                hot = r.below(paths.len());
            }
            let p = paths[hot].clone();
            let k = if std::mem::take(&mut first) { 0 } else { r.below(16) };
            match k {
                0 | 1 => {
                    // a sync, sometimes so many that what is not used is forgotten
                    let list: Vec<ImmutPath> = if burst > 0 || r.chance(2, 3) { paths.iter().map(|p| p.as_path().into()).collect() } else { (0..r.range(1, 4)).map(|_| paths[r.below(paths.len())].as_path().into()).collect() };
                    let times = if r.chance(1, 12) && burst == 0 { burst = 1; 32 } else { 1 };
                    let list: Vec<ImmutPath> = if times > 1 { vec![paths[0].as_path().into()] } else { list };
                    for _ in 0..times {
                        let up = r.chance(1, 6);
                        with(|w| {
                            w.log.push(format!("t={} {} {list:?}", w.now, if up { "upstream update" } else { "dependencies" }));
                            deps = list.iter().map(|p| p.to_path_buf()).collect();
                            w.recent.push_back(deps.clone());
                            if w.recent.len() > 25 {
                                w.recent.pop_front();
                            }
                            for p in &deps {
                                w.sure.insert(p.clone(), true);
                                let is = held(w, p);
                                if w.told.get(p).is_some_and(|k| lapse(k, &is)) {
                                    let t = w.now;
                                    w.since.entry(p.clone()).or_insert(t);
                                } else if is.is_ok() {
                                    w.since.remove(p);
                                }
                            }
                        });
                        if up {
                            sent.push(sent.len() as u32);
                            let _ = tx.send(NotifyMessage::UpstreamUpdate(UpstreamUpdateEvent { invalidates: list.clone(), opaque: Box::new(sent.len() as u32 - 1) }));
                        } else {
                            let _ = tx.send(NotifyMessage::SyncDependency(Box::new(list.clone())));
                        }
                    }
                }
                2..=6 => {
                    let d = [1, 10, 30, 49, 50, 51, 80, 200][r.below(8)];
                    // the clock does not jump over what is due
                    for _ in 0..d {
                        with(|w| w.now += 1);
                        if prompt || r.chance(1, 8) {
                            run_tasks(2);
                        }
                    }
                }
                _ => {
                    texts += 1;
                    use notify::event::{ModifyKind, RemoveKind, RenameMode};
                    use notify::EventKind;
                    let ev = with(|w| {
                        let dir = matches!(w.files.get(&p), Some(Err(FileError::IsDirectory)));
                        let there = w.files.contains_key(&p);
                        let prior = w.told.get(&p).cloned().and_then(|x| x.ok());
                        let new: Held = match prior {
                            Some(t) if r.chance(1, 3) => Ok(t),
                            _ => Ok(format!("text #{texts}").into_bytes()),
                        };
                        let (what, new, kind, gone): (&str, Option<Held>, EventKind, bool) = match r.below(8) {
                            0 | 1 if there && !dir => ("truncated", Some(Ok(vec![])), EventKind::Modify(ModifyKind::Data), false),
                            2 if there => ("removed", None, EventKind::Remove(RemoveKind::File), true),
                            3 if there => ("moved away", None, EventKind::Modify(ModifyKind::Name(RenameMode::From)), true),
                            4 if there && !dir => ("replaced", Some(new), EventKind::Remove(RemoveKind::File), true),
                            5 if there && !dir => ("made unreadable", Some(Err(FileError::AccessDenied)), EventKind::Modify(ModifyKind::Metadata), false),
                            6 if there && !dir => ("touched", w.files.get(&p).cloned(), EventKind::Modify(ModifyKind::Metadata), false),
                            _ if dir => ("touched", w.files.get(&p).cloned(), EventKind::Other, false),
                            _ => ("written", Some(new), EventKind::Modify(ModifyKind::Data), false),
                        };
                        w.log.push(format!("t={} {p:?} {what} {}", w.now, new.as_ref().and_then(|x| x.as_ref().ok()).map(|x| String::from_utf8_lossy(x).into_owned()).unwrap_or_default()));
                        change(w, &p, new, kind, gone)
                    });
                    if let Some(mut ev) = ev {
                        if r.chance(1, 8) {
                            let q = paths[r.below(paths.len())].clone();
                            with(|w| {
                                let is = held(w, &q);
                                if w.told.get(&q).is_some_and(|k| lapse(k, &is)) {
                                    let t = w.now;
                                    w.since.entry(q.clone()).or_insert(t);
                                } else if is.is_ok() {
                                    w.since.remove(&q);
                                }
                            });
                            ev.paths.push(q);
                        }
                        let cb = with(|w| w.cb.clone());
                        cb.unwrap()(Ok(ev));
                    } else if !blind && r.chance(1, 10) {
                        let cb = with(|w| w.cb.clone());
                        cb.unwrap()(Err(notify::Error));
                    }
                }
            }
            let log = with(|w| w.log.join("; "));
            cx.case(&log);
            if prompt || r.chance(1, 3) {
                if cx.guard("watcher", &log, || run_tasks(3)).is_none() {
                    return cx.finish();
                }
            }
        }
        // time passes
        for _ in 0..300 {
            with(|w| w.now += 1);
            let log = with(|w| w.log.join("; "));
            if with(|w| w.now % 20 == 0) && cx.guard("watcher", &log, || run_tasks(4)).is_none() {
                return cx.finish();
            }
        }
        with(|w| {
            let log = w.log.join("; ");
            for (what, want, got) in std::mem::take(&mut w.fails) {
                cx.fail(&what, &log, &want, &got);
            }
            for p in &paths {
                let is = held(w, p);
                if w.sure.get(p).copied().unwrap_or(false) && (w.told.contains_key(p) || deps.contains(p)) && w.told.get(p) != Some(&is) {
                    cx.fail(&format!("what the consumer knows of {p:?} in the end"), &log, &format!("{is:?}"), &format!("{:?}", w.told.get(p)));
                }
            }
            if w.ups != sent {
                cx.fail("upstream updates handed on", &log, &format!("{sent:?}"), &format!("{:?}", w.ups));
            }
            cx.eval(&log);
        });
    }
    cx.finish()
}
