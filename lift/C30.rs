//@include ../lift/common.rs
//@include ../lift/vfs.rs
// C30: the caches of the virtual file system against what the layers hold.
use std::num::NonZeroUsize;
use std::sync::OnceLock;
use vx::{Ctx, Rng};
macro_rules! vx_log { ($($t:tt)*) => {{ let _ = format!($($t)*); }} }
mod log {
    pub(crate) use {vx_log as trace, vx_log as debug, vx_log as info, vx_log as warn, vx_log as error};
}
pub type FxHashMap<K, V> = HashMap<K, V>;
pub type FxHashSet<K> = HashSet<K>;
pub type EcoVec<T> = Vec<T>;
/// dashmap: one lock stands for the shards
pub struct FxDashMap<K, V>(std::sync::Mutex<HashMap<K, V>>);
impl<K, V> Default for FxDashMap<K, V> {
    fn default() -> Self {
        FxDashMap(Default::default())
    }
}
pub struct DashEntry<'a, K, V>(std::sync::MutexGuard<'a, HashMap<K, V>>, K);
pub struct DashRef<'a, K, V>(std::sync::MutexGuard<'a, HashMap<K, V>>, K);
impl<K: std::hash::Hash + Eq + Clone, V> FxDashMap<K, V> {
    pub fn entry(&self, k: K) -> DashEntry<'_, K, V> {
        DashEntry(self.0.lock().unwrap(), k)
    }
    pub fn retain(&self, mut f: impl FnMut(&K, &mut V) -> bool) {
        self.0.lock().unwrap().retain(|k, v| f(k, v))
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().len()
    }
}
impl<'a, K: std::hash::Hash + Eq + Clone, V: Default> DashEntry<'a, K, V> {
    pub fn or_default(self) -> DashRef<'a, K, V> {
        let DashEntry(mut g, k) = self;
        g.entry(k.clone()).or_default();
        DashRef(g, k)
    }
}
impl<K: std::hash::Hash + Eq, V> Deref for DashRef<'_, K, V> {
    type Target = V;
    fn deref(&self) -> &V {
        &self.0[&self.1]
    }
}
impl<K: std::hash::Hash + Eq, V> std::ops::DerefMut for DashRef<'_, K, V> {
    fn deref_mut(&mut self) -> &mut V {
        self.0.get_mut(&self.1).unwrap()
    }
}
/// typst's parsed source: the text stands for the tree
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Source(Arc<(TypstFileId, String)>);
impl Source {
    pub fn new(f: TypstFileId, t: String) -> Self {
        Source(Arc::new((f, t)))
    }
    pub fn id(&self) -> TypstFileId {
        self.0 .0
    }
    pub fn text(&self) -> &str {
        &self.0 .1
    }
    pub fn replace(&mut self, t: &str) -> std::ops::Range<usize> {
        self.0 = Arc::new((self.0 .0, t.to_owned()));
        0..t.len()
    }
}
impl From<std::str::Utf8Error> for FileError {
    fn from(_: std::str::Utf8Error) -> Self {
        FileError::InvalidUtf8
    }
}
//@rawitems crates/tinymist-vfs/src/lib.rs Vfs RevisingVfs SharedAccessModel PathAccessModel AccessModel -FileId -TypstFileId -impl:Debug
//@rawitems crates/tinymist-vfs/src/overlay.rs OverlayAccessModel
//@rawitems crates/tinymist-vfs/src/notify.rs NotifyAccessModel FilesystemEvent UpstreamUpdateEvent
//@rawitems crates/tinymist-vfs/src/snapshot.rs FileSnapshot FileChangeSet
//@rawitems crates/tinymist-vfs/src/resolve.rs ResolveAccessModel

const IDS: u16 = 9;
const PATHS: [&str; 5] = ["/r/a", "/r/b", "/r/c.typ", "/r/d", "/r/e"];
/// ids: several for some of the paths, one without a path, one that is refused
struct Roots;
fn path_of(f: u16) -> Option<&'static str> {
    match f {
        0 | 5 => Some(PATHS[0]),
        1 | 6 => Some(PATHS[1]),
        2..=4 => Some(PATHS[f as usize]),
        _ => None,
    }
}
impl RootResolver for Roots {
    fn path_for_id(&self, f: TypstFileId) -> FileResult<PathResolution> {
        match path_of(f.0) {
            Some(p) => Ok(PathResolution::Resolved(p.into())),
            None if f.0 == 7 => Ok(PathResolution::Rootless("r".into())),
            None => Err(FileError::Other(None)),
        }
    }
}
/// the disk below everything
#[derive(Clone, Default)]
struct Disk(Arc<std::sync::Mutex<HashMap<PathBuf, FileResult<Bytes>>>>);
impl PathAccessModel for Disk {
    fn content(&self, p: &Path) -> FileResult<Bytes> {
        self.0.lock().unwrap().get(p).cloned().unwrap_or_else(|| Err(FileError::NotFound(p.into())))
    }
}
/// what the layers of a view hold, and what was read through it since (the disk may change unseen)
#[derive(Clone, Default)]
struct Want {
    ids: HashMap<u16, FileResult<Bytes>>,
    paths: HashMap<&'static str, FileResult<Bytes>>,
    noted: HashMap<&'static str, FileResult<Bytes>>,
    read: HashMap<u16, FileResult<Bytes>>,
}
impl Want {
    /// None: whatever the disk held at some time
    fn of(&self, f: u16) -> Option<FileResult<Bytes>> {
        if let Some(c) = self.ids.get(&f) {
            return Some(c.clone());
        }
        let Some(p) = path_of(f) else { return Some(Err(if f == 7 { FileError::AccessDenied } else { FileError::Other(None) })) };
        self.paths.get(p).or_else(|| self.noted.get(p)).or_else(|| self.read.get(&f)).cloned()
    }
    fn forget_path(&mut self, p: &str) {
        self.read.retain(|f, _| path_of(*f) != Some(p));
    }
}
fn content(r: &mut Rng, n: &mut u64) -> FileResult<Bytes> {
    *n += 1;
    match r.below(11) {
        5 => {
            // all but a byte order mark
            let b: &[&[u8]] = &[b"\xef\xbb", b"\xef\xbbA", b"\xef", b"\xef\xbb\xbf", b"\xef\xbb\xbf\xef\xbb\xbf", b"\xef\xbb\xbe", b"\xbb\xbfq"];
            Ok(Bytes::new(r.pick(b).to_vec()))
        }
        0 => Err(FileError::AccessDenied),
        1 => Ok(Bytes::new([])),
        2 => Ok(Bytes::new([0xef, 0xbb, 0xbf, b'x', b'0' + (*n % 10) as u8])),
        3 => Ok(Bytes::new([0xff, *n as u8])),
        4 => Ok(Bytes::new(format!("c{}", *n % 3))),
        _ => Ok(Bytes::new(format!("c{n}é"))),
    }
}
fn sourced(c: &FileResult<Bytes>) -> Result<String, FileError> {
    let b = c.clone()?;
    let t = b.strip_prefix(b"\xef\xbb\xbf").unwrap_or(&b);
    String::from_utf8(t.to_vec()).map_err(|_| FileError::InvalidUtf8)
}
type V = Vfs<Disk>;

fn main() {
    let mut cx = Ctx::new();
    cx.rule = "histories of reads through several views, in-memory files by path and id, watcher change sets and unseen disk writes; every read against what the layers of that view hold".into();
    let mut n = 0;
    while cx.more(n, 20000, 600000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let disk = Disk::default();
        let quiet = r.chance(2, 3);
        let mut k = 0;
        for p in PATHS {
            if r.chance(1, 2) {
                let c = content(&mut r, &mut k);
                disk.0.lock().unwrap().insert(p.into(), c);
            }
        }
        let mut views: Vec<(V, Want)> = vec![(Vfs::new(Arc::new(Roots), disk.clone()), Want::default())];
        let mut log: Vec<String> = vec![];
        for _ in 0..r.range(3, 24) {
            let i = if r.chance(2, 3) { 0 } else { r.below(views.len()) };
            let step = r.below(16);
            let (mut p, mut f) = (*r.pick(&PATHS), r.below(IDS as usize) as u16);
            // stay near one file
            if r.chance(2, 3) {
                p = PATHS[0];
                f = *r.pick(&[0, 5]);
            }
            let c = content(&mut r, &mut k);
            if let 12 = step {
                if !quiet {
                    log.push(format!("disk {p} := {c:?}"));
                    disk.0.lock().unwrap().insert(p.into(), c);
                }
                continue;
            }
            if step >= 13 {
                if views.len() < 6 {
                    let (v, w) = &views[i];
                    let fork = step == 15 && r.chance(1, 2);
                    log.push(format!("view {} := {}({i})", views.len(), if fork { "fork" } else { "snapshot" }));
                    let mut w = w.clone();
                    if fork {
                        w.read.clear();
                    }
                    let v = if fork { v.fork() } else { v.snapshot() };
                    views.push((v, w));
                }
                continue;
            }
            let now = |p: &str| disk.0.lock().unwrap().get(Path::new(p)).cloned().unwrap_or_else(|| Err(FileError::NotFound(p.into())));
            let (v, w) = &mut views[i];
            match step {
                0..=3 => {
                    let src = r.chance(1, 3);
                    log.push(format!("{} {f} through {i}", if src { "source" } else { "read" }));
                    let show = log.join("; ");
                    cx.case(&show);
                    // in a quiet history the disk is what it always was
                    let want = w.of(f).or_else(|| quiet.then(|| now(path_of(f).unwrap())));
                    let got: Result<String, String> = if src {
                        let Some(g) = cx.guard("reading a source", &show, || v.source(TypstFileId(f))) else { break };
                        let g = g.map(|s| s.text().to_owned()).map_err(|e| format!("{e:?}"));
                        if let Some(want) = want {
                            let want = sourced(&want).map_err(|e| format!("{e:?}"));
                            if g != want {
                                cx.fail("the source read", &show, &format!("{want:?}"), &format!("{g:?}"));
                                break;
                            }
                        }
                        continue;
                    } else {
                        let Some(g) = cx.guard("reading", &show, || v.read(TypstFileId(f))) else { break };
                        w.read.insert(f, g.clone());
                        if let Some(want) = want {
                            if g != want {
                                cx.fail("the content read", &show, &format!("{want:?}"), &format!("{g:?}"));
                                break;
                            }
                        }
                        g.map(|b| format!("{b:?}")).map_err(|e| format!("{e:?}"))
                    };
                    let _ = got;
                }
                4 => {
                    log.push(format!("map_shadow {p} {c:?} in {i}"));
                    v.revise().map_shadow(Path::new(p), c.clone().into()).unwrap();
                    w.paths.insert(p, c);
                    w.forget_path(p);
                }
                5 => {
                    log.push(format!("unmap_shadow {p} in {i}"));
                    v.revise().unmap_shadow(Path::new(p)).unwrap();
                    w.paths.remove(p);
                    w.forget_path(p);
                }
                6 => {
                    log.push(format!("map_shadow_by_id {f} {c:?} in {i}"));
                    v.revise().map_shadow_by_id(TypstFileId(f), c.clone().into()).unwrap();
                    w.ids.insert(f, c);
                    w.read.remove(&f);
                }
                7 => {
                    log.push(format!("remove_shadow_by_id {f} in {i}"));
                    v.revise().remove_shadow_by_id(TypstFileId(f));
                    w.ids.remove(&f);
                    w.read.remove(&f);
                }
                8 | 9 => {
                    let mut e = FileChangeSet::default();
                    for _ in 0..r.range(0, 3) {
                        let p = if r.chance(1, 2) { p } else { *r.pick(&PATHS) };
                        if r.chance(1, 2) {
                            e.removes.push(Path::new(p).into());
                        } else {
                            let c = content(&mut r, &mut k);
                            e.inserts.push((Path::new(p).into(), c.into()));
                        }
                    }
                    log.push(format!("notify -{:?} +{:?} in {i}", e.removes, e.inserts.iter().map(|(p, s)| (p, s.content())).collect::<Vec<_>>()));
                    for q in &e.removes {
                        let q = *PATHS.iter().find(|x| Path::new(x) == &**q).unwrap();
                        w.noted.remove(q);
                        w.forget_path(q);
                    }
                    for (q, s) in &e.inserts {
                        let q = *PATHS.iter().find(|x| Path::new(x) == &**q).unwrap();
                        w.noted.insert(q, s.content().cloned());
                        w.forget_path(q);
                    }
                    if step == 8 {
                        v.revise().notify_fs_changes(e);
                    } else {
                        v.revise().notify_fs_event(FilesystemEvent::Update(e));
                    }
                }
                10 => {
                    // several changes in one revision
                    let q = *r.pick(&PATHS);
                    log.push(format!("in one revision of {i}: unmap_shadow {q}, map_shadow {p} {c:?}, remove_shadow_by_id {f}"));
                    let mut rv = v.revise();
                    rv.unmap_shadow(Path::new(q)).unwrap();
                    rv.map_shadow(Path::new(p), c.clone().into()).unwrap();
                    rv.remove_shadow_by_id(TypstFileId(f));
                    drop(rv);
                    w.paths.remove(q);
                    w.paths.insert(p, c);
                    w.ids.remove(&f);
                    w.forget_path(q);
                    w.forget_path(p);
                    w.read.remove(&f);
                }
                _ => match r.below(4) {
                    0 => {
                        log.push(format!("reset_shadow in {i}"));
                        v.revise().reset_shadow();
                        for p in w.paths.drain().map(|x| x.0).collect::<Vec<_>>() {
                            w.forget_path(p);
                        }
                        for f in w.ids.drain().map(|x| x.0).collect::<Vec<_>>() {
                            w.read.remove(&f);
                        }
                    }
                    1 => {
                        log.push(format!("reset_mapping in {i}"));
                        v.reset_mapping();
                        w.read.clear();
                    }
                    2 => {
                        let t = r.below(4);
                        log.push(format!("evict({t}) in {i}"));
                        v.evict(t);
                        // also in the views that share the entries
                        for (_, w) in &mut views {
                            w.read.clear();
                        }
                    }
                    _ => {
                        log.push(format!("evict the source cache of {i}"));
                        let t = r.below(3);
                        v.clone_source_cache().evict(v.revision(), t);
                    }
                },
            }
        }
        let key = if log.len() > 6 { log.join("; ") } else { String::new() };
        cx.eval(&key);
    }
    cx.finish()
}
