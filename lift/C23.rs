//@include ../lift/common.rs
//@include ../lift/vfs.rs
// C23: the whole stack of layers over a disk that changes too, against a reference.
use vx::{Ctx, Rng};
//@rawitems crates/tinymist-vfs/src/lib.rs SharedAccessModel PathAccessModel AccessModel
//@rawitems crates/tinymist-vfs/src/overlay.rs OverlayAccessModel
//@rawitems crates/tinymist-vfs/src/notify.rs NotifyAccessModel
//@rawitems crates/tinymist-vfs/src/snapshot.rs FileSnapshot FileChangeSet
//@rawitems crates/tinymist-vfs/src/resolve.rs ResolveAccessModel
//@rawitems crates/tinymist-vfs/src/system.rs SystemAccessModel

/// file ids: some of several for one path, one rootless, one that cannot be resolved
struct Roots(PathBuf, Arc<RwLock<usize>>);
impl RootResolver for Roots {
    fn path_for_id(&self, f: TypstFileId) -> FileResult<PathResolution> {
        *self.1.write() += 1;
        match f.0 {
            0..=5 => Ok(PathResolution::Resolved(self.0.join(NAMES[f.0 as usize % NAMES.len()]))),
            6 => Ok(PathResolution::Rootless(PathBuf::from("r"))),
            _ => Err(FileError::Other(Some("no root".into()))),
        }
    }
}
const NAMES: [&str; 5] = ["a", "b", "é.typ", "sub/./a", "sub"];
type Stack = OverlayAccessModel<TypstFileId, ResolveAccessModel<OverlayAccessModel<ImmutPath, SharedAccessModel<NotifyAccessModel<SystemAccessModel>>>>>;
#[derive(Clone, Default)]
struct Want {
    by_id: BTreeMap<u16, FileResult<Bytes>>,
    by_path: BTreeMap<PathBuf, FileResult<Bytes>>,
    noted: BTreeMap<PathBuf, FileResult<Bytes>>,
}
fn content(r: &mut Rng, n: u64) -> FileResult<Bytes> {
    if r.chance(1, 5) {
        Err(if r.chance(1, 2) { FileError::AccessDenied } else { FileError::NotFound(format!("n{n}").into()) })
    } else if r.chance(1, 6) {
        Ok(Bytes::new([]))
    } else {
        Ok(Bytes::new(format!("c{n}").as_bytes()))
    }
}
fn disk(root: &Path, p: &Path) -> FileResult<Bytes> {
    if p.is_dir() {
        return Err(FileError::IsDirectory);
    }
    std::fs::read(p).map(Bytes::new).map_err(|e| FileError::from_io(e, p))
}
fn main() {
    let mut cx = Ctx::new();
    cx.rule = "histories of in-memory files by id and by path, watcher change sets and disk writes over the whole stack, all files read back after each step".into();
    let root = cx.dir.join("c23");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(root.join("sub")).unwrap();
    let mut n = 0;
    let mut k = 0;
    while cx.more(n, 400, 8000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let shared = SharedAccessModel::new(NotifyAccessModel::new(SystemAccessModel));
        let lower = shared.clone();
        let mut st: Stack = OverlayAccessModel::new(ResolveAccessModel { resolver: Arc::new(Roots(root.clone(), Arc::new(RwLock::new(0)))), inner: OverlayAccessModel::new(shared) });
        let mut want = Want::default();
        // copies taken along the way must not follow (nor be followed by) the original
        let mut old: Option<(Stack, Want)> = None;
        let mut log = String::new();
        for _ in 0..r.range(1, 24) {
            k += 1;
            let p: PathBuf = root.join(*r.pick(&NAMES[..4]));
            let id = r.below(8) as u16;
            let step = match r.below(12) {
                0 | 1 => {
                    let c = content(&mut r, k);
                    let s = format!("add by id {id}: {c:?}");
                    cx.case(&s);
                    st.add_file(&TypstFileId(id), FileSnapshot::from(c.clone()), |c| *c);
                    want.by_id.insert(id, c);
                    s
                }
                2 | 3 => {
                    let c = content(&mut r, k);
                    let s = format!("add by path {p:?}: {c:?}");
                    st.inner.inner.add_file(p.as_path(), FileSnapshot::from(c.clone()), |c| c.into());
                    want.by_path.insert(p, c);
                    s
                }
                4 => {
                    st.remove_file(&TypstFileId(id));
                    want.by_id.remove(&id);
                    format!("remove by id {id}")
                }
                5 => {
                    st.inner.inner.remove_file(p.as_path());
                    want.by_path.remove(&p);
                    format!("remove by path {p:?}")
                }
                6 if r.chance(1, 2) => {
                    st.clear_shadow();
                    want.by_id.clear();
                    "clear ids".into()
                }
                6 => {
                    st.inner.inner.clear_shadow();
                    want.by_path.clear();
                    "clear paths".into()
                }
                7 | 8 | 9 => {
                    let mut cs = match r.below(4) {
                        0 => FileChangeSet::new_removes((0..r.below(3)).map(|_| root.join(*r.pick(&NAMES[..4])).as_path().into()).collect()),
                        1 => FileChangeSet::new_inserts((0..r.below(3)).map(|_| (root.join(*r.pick(&NAMES[..4])).as_path().into(), FileSnapshot::from(content(&mut r, k)))).collect()),
                        _ => FileChangeSet::default(),
                    };
                    if r.chance(1, 3) {
                        cs.removes.push(p.as_path().into());
                    }
                    let before = cs.inserts.len();
                    let (a, b) = (r.chance(1, 2), r.below(3));
                    cs.may_insert(if a { Some((p.as_path().into(), FileSnapshot::from(content(&mut r, k)))) } else { None });
                    let more: Vec<(ImmutPath, FileSnapshot)> = (0..b).map(|_| (root.join(*r.pick(&NAMES[..4])).as_path().into(), FileSnapshot::from(content(&mut r, k)))).collect();
                    cs.may_extend(if b > 0 { Some(more.into_iter()) } else { None });
                    let s = format!("watcher {:?} {:?}", cs.removes, cs.inserts.iter().map(|i| (&i.0, i.1.content().cloned())).collect::<Vec<_>>());
                    if cs.inserts.len() != before + a as usize + b || cs.is_empty() != (cs.removes.is_empty() && cs.inserts.is_empty()) {
                        cx.fail("a change set holds what was put in it", &s, &format!("{} inserts", before + a as usize + b), &format!("{} inserts, is_empty {}", cs.inserts.len(), cs.is_empty()));
                    }
                    for x in &cs.removes {
                        want.noted.remove(x.as_ref());
                    }
                    for (x, c) in &cs.inserts {
                        want.noted.insert(x.to_path_buf(), c.content().cloned());
                    }
                    lower.inner.write().notify(cs);
                    s
                }
                10 => {
                    let f = root.join(*r.pick(&NAMES[..4]));
                    if r.chance(1, 3) {
                        let _ = std::fs::remove_file(&f);
                    } else {
                        std::fs::write(&f, format!("d{k}")).unwrap();
                    }
                    format!("disk {f:?}")
                }
                _ => {
                    // a copy shares the watcher layer (by design), not the in-memory ones
                    old = Some((st.clone(), want.clone()));
                    "copy".into()
                }
            };
            log += &step;
            log += "; ";
            cx.case(&log);
            let mut views: Vec<(&str, &Stack, Want)> = vec![("the files", &st, want.clone())];
            if let Some((o, w)) = &old {
                views.push(("an earlier copy", o, Want { noted: want.noted.clone(), ..w.clone() }));
            }
            for (what, s, w) in views {
                let by_path = |p: &Path| w.by_path.get(p).or_else(|| w.noted.get(p)).cloned().unwrap_or_else(|| disk(&root, p));
                for id in 0..8u16 {
                    let exp = match (w.by_id.get(&id), id) {
                        (Some(c), _) => (None, c.clone()),
                        (None, 0..=5) => {
                            let p = root.join(NAMES[id as usize % NAMES.len()]);
                            (Some(p.clone()), by_path(&p))
                        }
                        (None, 6) => (None, Err(FileError::AccessDenied)),
                        _ => (None, Err(FileError::Other(Some("no root".into())))),
                    };
                    let Some(got) = cx.guard("content", &log, || s.content(TypstFileId(id))) else { break };
                    let got = (got.0.map(|p| p.to_path_buf()), got.1);
                    if got != exp {
                        cx.fail(&format!("what {what} give for file {id}"), &log, &format!("{exp:?}"), &format!("{got:?}"));
                    }
                }
                for nm in &NAMES {
                    let p = root.join(nm);
                    let (exp, got) = (by_path(&p), s.inner().inner.content(&p));
                    if got != exp {
                        cx.fail(&format!("what {what} give for path {p:?}"), &log, &format!("{exp:?}"), &format!("{got:?}"));
                    }
                }
                let ids: Vec<u16> = s.file_paths().iter().map(|f| f.0).collect();
                let exp: Vec<u16> = w.by_id.keys().copied().collect();
                if ids.iter().copied().collect::<BTreeSet<_>>() != exp.iter().copied().collect() || ids.len() != exp.len() {
                    cx.fail("the in-memory files listed", &log, &format!("{exp:?}"), &format!("{ids:?}"));
                }
            }
            cx.eval(&log);
            if cx.failed() {
                break;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&root);
    cx.finish()
}
