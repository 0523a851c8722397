//@include ../lift/common.rs
//@include ../lift/vfs.rs
// C29: the project compiler: changes, compilations and watcher answers in any order, with jobs that run and end whenever they like.
use std::num::NonZeroUsize;
use std::sync::OnceLock;
use vx::{Ctx, Rng};
macro_rules! vx_log { ($($t:tt)*) => {{ let _ = format!($($t)*); }} }
#[allow(unused_imports)]
mod log {
    pub(crate) use {vx_log as trace, vx_log as debug, vx_log as info, vx_log as warn, vx_log as error};
}
macro_rules! eco_vec { ($($t:tt)*) => { vec![$($t)*] } }
pub type EcoVec<T> = Vec<T>;
impl PartialOrd for EcoString {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for EcoString {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (**self).cmp(&**o)
    }
}
impl Default for EcoString {
    fn default() -> Self {
        "".into()
    }
}
#[derive(Debug)]
pub struct Error(String);
pub type Result<T, E = Error> = std::result::Result<T, E>;
mod typst {
    pub mod diag {
        #[derive(Debug, Clone)]
        pub struct SourceDiagnostic;
    }
}
pub type SourceResult<T> = std::result::Result<T, EcoVec<typst::diag::SourceDiagnostic>>;
mod tinymist_std {
    pub mod time {
        pub use std::time::Duration;
        pub fn now() -> std::time::SystemTime {
            std::time::SystemTime::now()
        }
    }
}
pub mod rpds {
    pub use super::RedBlackTreeMapSync;
}
mod mpsc {
    pub type UnboundedSender<T> = std::sync::mpsc::Sender<T>;
    pub mod error {
        pub use std::sync::mpsc::SendError;
    }
}
mod rayon {
    pub fn spawn(f: impl FnOnce()) {
        f()
    }
}
mod comemo {
    pub fn evict(_: usize) {}
}
pub struct WorkspaceResolver;
impl WorkspaceResolver {
    pub fn display(id: Option<FileId>) -> Option<FileId> {
        id
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ExportTarget {
    Paged,
    Html,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct TypstDocument(Arc<String>);
impl From<Arc<String>> for TypstDocument {
    fn from(s: Arc<String>) -> Self {
        TypstDocument(s)
    }
}
impl TypstDocument {
    pub fn num_of_pages(&self) -> u32 {
        1
    }
}
#[derive(Debug, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct ProjectInsId(pub EcoString);
#[derive(Debug, Clone, Copy, Default)]
pub struct ExportSignal {
    pub by_mem_events: bool,
    pub by_fs_events: bool,
    pub by_entry_update: bool,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Dict(u32);
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct LazyHash<T>(T);
#[derive(Debug, Clone, Default)]
pub struct Features;
pub struct Library;
fn create_library(_: Arc<LazyHash<Dict>>, _: Features) -> Arc<LazyHash<Library>> {
    Arc::new(LazyHash(Library))
}
#[derive(Debug, Clone, Hash, PartialEq, Eq, Default)]
pub struct EntryState {
    root: Option<ImmutPath>,
    main: Option<FileId>,
}
impl EntryState {
    pub fn main(&self) -> Option<FileId> {
        self.main
    }
    pub fn workspace_root(&self) -> Option<ImmutPath> {
        self.root.clone()
    }
    pub fn is_inactive(&self) -> bool {
        self.main.is_none()
    }
}
pub trait EntryReader {
    fn entry_state(&self) -> EntryState;
    fn main_id(&self) -> Option<FileId> {
        self.entry_state().main()
    }
}
#[derive(Debug, Clone, Default)]
pub struct TaskInputs {
    pub entry: Option<EntryState>,
    pub inputs: Option<Arc<LazyHash<Dict>>>,
}
pub trait CompilerFeat: Send + Sync + 'static {
    type FontResolver: FontResolver;
    type Registry: PackageRegistry;
    type AccessModel: Send + Sync;
}
pub trait FontResolver: Send + Sync {
    fn revision(&self) -> Option<NonZeroUsize>;
}
pub trait PackageRegistry: Send + Sync {
    fn revision(&self) -> Option<NonZeroUsize>;
}
#[derive(Debug)]
pub struct Feat;
impl CompilerFeat for Feat {
    type FontResolver = Fonts;
    type Registry = Packages;
    type AccessModel = ();
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Fonts {
    rev: Option<NonZeroUsize>,
    which: u32,
}
impl FontResolver for Fonts {
    fn revision(&self) -> Option<NonZeroUsize> {
        self.rev
    }
}
#[derive(Debug)]
pub struct Packages;
impl PackageRegistry for Packages {
    fn revision(&self) -> Option<NonZeroUsize> {
        NonZeroUsize::new(1)
    }
}
//@rawitems crates/tinymist-vfs/src/snapshot.rs FileSnapshot FileChangeSet
//@rawitems crates/tinymist-vfs/src/notify.rs MemoryEvent FilesystemEvent UpstreamUpdateEvent NotifyDeps NotifyMessage
type Mem = BTreeMap<PathBuf, FileResult<Bytes>>;
/// the files as a project sees them (C23, C30)
#[derive(Debug)]
pub struct Vfs<M> {
    mem: Mem,
    log: Vec<String>,
    rev: NonZeroUsize,
    m: std::marker::PhantomData<M>,
}
impl<M> Vfs<M> {
    pub fn display(&self) -> &[String] {
        &self.log
    }
    pub fn revision(&self) -> NonZeroUsize {
        self.rev
    }
    pub fn snapshot(&self) -> Self {
        Vfs { mem: self.mem.clone(), log: self.log.clone(), rev: self.rev, m: Default::default() }
    }
    pub fn fork(&self) -> Self {
        Vfs { mem: self.mem.clone(), log: self.log.clone(), rev: NonZeroUsize::new(2).unwrap(), m: Default::default() }
    }
    pub fn revise(&mut self) -> RevisingVfs<'_, M> {
        RevisingVfs { inner: self }
    }
    pub fn reset_access_model(&mut self) {}
}
pub struct RevisingVfs<'a, M> {
    inner: &'a mut Vfs<M>,
}
impl<M> RevisingVfs<'_, M> {
    fn step(&mut self) {
        self.inner.rev = self.inner.rev.checked_add(1).unwrap();
    }
    pub fn reset_shadow(&mut self) {
        self.inner.mem.clear();
        self.step();
    }
    pub fn map_shadow(&mut self, p: &Path, s: FileSnapshot) -> FileResult<()> {
        self.inner.mem.insert(p.into(), s.content().cloned());
        self.step();
        Ok(())
    }
    pub fn unmap_shadow(&mut self, p: &Path) -> FileResult<()> {
        self.inner.mem.remove(p);
        self.step();
        Ok(())
    }
    pub fn notify_fs_changes(&mut self, c: FileChangeSet) {
        self.inner.log.push(changes(&c));
        self.step();
    }
    pub fn reset_cache(&mut self) {
        self.step();
    }
}
fn changes(c: &FileChangeSet) -> String {
    let ins: Vec<_> = c.inserts.iter().map(|(p, s)| (p.clone(), s.content().cloned())).collect();
    format!("-{:?} +{:?}", c.removes, ins)
}
#[derive(Clone, Default)]
pub struct SourceDb {
    is_compiling: bool,
    slots: (),
}
type NowStorage = u32;
pub struct CompilerWorld<F: CompilerFeat> {
    entry: EntryState,
    inputs: Arc<LazyHash<Dict>>,
    features: Features,
    pub library: Arc<LazyHash<Library>>,
    pub font_resolver: Arc<F::FontResolver>,
    pub registry: Arc<F::Registry>,
    vfs: Vfs<F::AccessModel>,
    revision: NonZeroUsize,
    source_db: SourceDb,
    now: OnceLock<NowStorage>,
}
impl<F: CompilerFeat> Clone for CompilerWorld<F> {
    fn clone(&self) -> Self {
        self.task(TaskInputs::default())
    }
}
impl<F: CompilerFeat> EntryReader for CompilerWorld<F> {
    fn entry_state(&self) -> EntryState {
        self.entry.clone()
    }
}
impl<F: CompilerFeat> EntryReader for CompilerUniverse<F> {
    fn entry_state(&self) -> EntryState {
        self.entry.clone()
    }
}
impl<F: CompilerFeat> CompilerWorld<F> {
    pub fn task(&self, m: TaskInputs) -> Self {
        CompilerWorld {
            entry: m.entry.unwrap_or_else(|| self.entry.clone()),
            inputs: m.inputs.unwrap_or_else(|| self.inputs.clone()),
            features: Features,
            library: self.library.clone(),
            font_resolver: self.font_resolver.clone(),
            registry: self.registry.clone(),
            vfs: self.vfs.snapshot(),
            revision: self.revision,
            source_db: self.source_db.clone(),
            now: OnceLock::new(),
        }
    }
    pub fn revision(&self) -> NonZeroUsize {
        self.revision
    }
    pub fn inputs(&self) -> Arc<LazyHash<Dict>> {
        self.inputs.clone()
    }
    pub fn evict_vfs(&mut self, _: usize) {}
    pub fn evict_source_cache(&mut self, _: usize) {}
}
pub trait WorldDeps {
    fn iter_dependencies(&self, f: &mut dyn FnMut(FileId));
}
/// what a document depends on: its main file, and what its text names
impl<F: CompilerFeat> WorldDeps for CompilerWorld<F> {
    fn iter_dependencies(&self, f: &mut dyn FnMut(FileId)) {
        for i in depends(&self.entry, &self.vfs.mem, self.vfs.log.len()) {
            f(i);
        }
    }
}
fn depends(e: &EntryState, mem: &Mem, n: usize) -> Vec<FileId> {
    let mut v: Vec<FileId> = e.main.into_iter().collect();
    v.extend(mem.keys().enumerate().map(|(i, p)| TypstFileId((p.as_os_str().len() * 31 + i * 7 + n) as u16 % 12)));
    v
}
fn place(i: FileId) -> FileResult<PathResolution> {
    match i.0 % 6 {
        4 => Err(FileError::AccessDenied),
        5 => Ok(PathResolution::Rootless(PathBuf::from("r"))),
        _ => Ok(PathResolution::Resolved(PathBuf::from(format!("/w/d{}", i.0)))),
    }
}
pub trait FsProvider {
    fn file_path(&self, id: FileId) -> FileResult<PathResolution>;
}
impl<F: CompilerFeat> FsProvider for CompilerWorld<F> {
    fn file_path(&self, id: FileId) -> FileResult<PathResolution> {
        place(id)
    }
}
//@rawitems crates/tinymist-world/src/snapshot.rs CompileSnapshot -ProjectInsId -ExportSignal
/// a compilation: the document says what it was made from; some fail
pub struct WorldComputeGraph<F: CompilerFeat> {
    pub snap: CompileSnapshot<F>,
}
pub struct FlagTask<T>(std::marker::PhantomData<T>);
pub struct HtmlCompilationTask;
pub struct PagedCompilationTask;
impl<T> FlagTask<T> {
    pub fn flag(_: bool) -> Arc<Self> {
        Arc::new(FlagTask(std::marker::PhantomData))
    }
}
pub struct DiagnosticsTask {
    errors: usize,
    list: Vec<typst::diag::SourceDiagnostic>,
}
impl DiagnosticsTask {
    pub fn error_cnt(&self) -> usize {
        self.errors
    }
    pub fn warning_cnt(&self) -> usize {
        0
    }
    pub fn diagnostics(&self) -> impl Iterator<Item = &typst::diag::SourceDiagnostic> {
        self.list.iter()
    }
}
fn view(e: &EntryState, i: u32, fonts: u32, mem: &Mem, log: &[String]) -> String {
    format!("main={:?} inputs={i} fonts={fonts} mem={mem:?} log={log:?}", e.main)
}
fn compiled(e: &EntryState, v: &str) -> Option<String> {
    // some documents do not compile
    let h = v.bytes().fold(7u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32));
    (h % 3 != 0).then(|| v.to_owned())
}
fn seen<F: CompilerFeat<FontResolver = Fonts>>(w: &CompilerWorld<F>) -> String {
    view(&w.entry, w.inputs.0 .0, w.font_resolver.which, &w.vfs.mem, &w.vfs.log)
}
impl<F: CompilerFeat<FontResolver = Fonts>> WorldComputeGraph<F> {
    fn result(&self) -> Option<Arc<String>> {
        compiled(&self.snap.world.entry, &seen(&self.snap.world)).map(Arc::new)
    }
}
pub trait Computes {
    fn doc(&self) -> Option<Arc<String>>;
}
impl<F: CompilerFeat> Computes for WorldComputeGraph<F> {
    fn doc(&self) -> Option<Arc<String>> {
        let w: &dyn std::any::Any = self;
        w.downcast_ref::<WorldComputeGraph<Feat>>().and_then(|g| g.result())
    }
}
impl<F: CompilerFeat> WorldComputeGraph<F> {
    pub fn new(snap: CompileSnapshot<F>) -> Arc<Self> {
        Arc::new(WorldComputeGraph { snap })
    }
    pub fn snapshot_unsafe(&self, snap: CompileSnapshot<F>) -> Arc<Self> {
        Arc::new(WorldComputeGraph { snap })
    }
    pub fn world(&self) -> &CompilerWorld<F> {
        &self.snap.world
    }
    pub fn provide<T>(&self, _: SourceResult<Arc<T>>) -> Result<(), ()> {
        Ok(())
    }
    pub fn shared_compile(&self) -> Result<Option<Arc<String>>> {
        Ok(self.doc())
    }
    pub fn shared_compile_html(&self) -> Result<Option<Arc<String>>> {
        Ok(self.doc())
    }
    pub fn shared_diagnostics(&self) -> Result<Arc<DiagnosticsTask>> {
        Ok(Arc::new(DiagnosticsTask { errors: self.doc().is_none() as usize, list: vec![] }))
    }
}
#[derive(Debug)]
pub struct CompilerUniverse<F: CompilerFeat> {
    entry: EntryState,
    inputs: Arc<LazyHash<Dict>>,
    pub features: Features,
    pub font_resolver: Arc<F::FontResolver>,
    pub registry: Arc<F::Registry>,
    vfs: Vfs<F::AccessModel>,
    pub revision: NonZeroUsize,
}
impl<F: CompilerFeat> CompilerUniverse<F> {
    fn set_entry_file_(&mut self, p: Arc<Path>) -> SourceResult<()> {
        self.entry.root = Some(p);
        Ok(())
    }
//@rawimpl crates/tinymist-world/src/world.rs CompilerUniverse new_raw,inputs,snapshot,snapshot_with,increment_revision,mutate_entry_,vfs
}
//@rawitems crates/tinymist-world/src/world.rs RevisingUniverse -CompilerUniverse
//@rawitems crates/tinymist-project/src/compiler.rs ProjectCompiler ProjectInsState CompiledArtifact CompileServerOpts CompileHandler Interrupt

impl<F: CompilerFeat, Ext: 'static> CompileHandler<F, Ext> for std::marker::PhantomData<fn(F, Ext)> {
    fn on_any_compile_reason(&self, _: &mut ProjectCompiler<F, Ext>) {}
    fn notify_compile(&self, _: &CompiledArtifact<F>) {}
    fn status(&self, _: usize, _: CompileReport) {}
}
/// what the handler was told
#[derive(Default, Clone)]
struct Told(Arc<std::sync::Mutex<Vec<String>>>);
impl Told {
    fn take(&self) -> Vec<String> {
        std::mem::take(&mut *self.0.lock().unwrap())
    }
    fn add(&self, s: String) {
        self.0.lock().unwrap().push(s)
    }
}
impl CompileHandler<Feat, ()> for Told {
    fn on_any_compile_reason(&self, _: &mut ProjectCompiler<Feat, ()>) {}
    fn notify_compile(&self, r: &CompiledArtifact<Feat>) {
        self.add(format!("done {} {} {}", r.graph.snap.id.0, r.graph.snap.world.revision, r.doc.is_some()));
    }
    fn notify_removed(&self, id: &ProjectInsId) {
        self.add(format!("removed {}", id.0));
    }
    fn status(&self, revision: usize, rep: CompileReport) {
        let st = match rep.status {
            CompileStatusEnum::Suspend => return,
            CompileStatusEnum::Compiling => "compiling",
            CompileStatusEnum::CompileSuccess(..) => "success",
            CompileStatusEnum::CompileError(..) => "error",
            CompileStatusEnum::ExportError(..) => "export error",
        };
        self.add(format!("{st} {} {revision}", rep.id.0));
    }
}
/// what one project should be
#[derive(Clone)]
struct Inst {
    no: usize,
    name: String,
    entry: EntryState,
    inputs: u32,
    fonts: Fonts,
    log: Vec<String>,
    must: bool,
    may: bool,
    committed: usize,
    doc: Option<String>,
    bits: [bool; 3],
}
struct Job {
    inst: usize,
    name: String,
    rev: usize,
    view: String,
    deps: Vec<PathBuf>,
}
type Run = Box<dyn FnOnce() -> CompiledArtifact<Feat>>;
struct Sim {
    c: ProjectCompiler<Feat, ()>,
    rx: std::sync::mpsc::Receiver<NotifyMessage>,
    told: Told,
    insts: Vec<Inst>,
    next: usize,
    /// what the editor held after each of its changes
    editor: Vec<Mem>,
    pending: std::collections::VecDeque<UpstreamUpdateEvent>,
    waiting: Vec<(Job, Run)>,
    results: Vec<(Job, CompiledArtifact<Feat>)>,
    deps: BTreeMap<String, Vec<PathBuf>>,
    seen: HashMap<(usize, usize), String>,
    trace: Vec<String>,
    step: u32,
}
const NAMES: [&str; 3] = ["primary", "a", "b"];
fn entry(r: &mut Rng) -> EntryState {
    EntryState { root: Some(Path::new(*r.pick(&["/w", "/v"])).into()), main: if r.chance(4, 5) { Some(TypstFileId(r.below(3) as u16)) } else { None } }
}
fn change_set(r: &mut Rng, n: u32, most: usize) -> FileChangeSet {
    let mut c = FileChangeSet::default();
    for _ in 0..r.below(most) {
        let p: ImmutPath = PathBuf::from(format!("/w/f{}", r.below(4))).into();
        if r.chance(1, 3) {
            c.removes.push(p);
        } else {
            let x: FileResult<Bytes> = if r.chance(1, 8) { Err(FileError::AccessDenied) } else { Ok(Bytes::from_string(format!("t{n}.{}", r.below(9)))) };
            c.inserts.push((p, x.into()));
        }
    }
    c
}
fn copy_set(c: &FileChangeSet) -> FileChangeSet {
    let mut d = FileChangeSet::default();
    d.removes = c.removes.clone();
    d.inserts = c.inserts.clone();
    d
}
impl Sim {
    fn new(r: &mut Rng) -> Sim {
        let (tx, rx) = std::sync::mpsc::channel();
        let told = Told::default();
        let e = entry(r);
        let fonts = Fonts { rev: NonZeroUsize::new(1), which: 0 };
        let vfs = Vfs { mem: Mem::new(), log: vec![], rev: NonZeroUsize::new(1).unwrap(), m: Default::default() };
        let verse = CompilerUniverse::new_raw(e.clone(), Features, None, vfs, Arc::new(Packages), Arc::new(fonts.clone()));
        let c = ProjectCompiler::new(verse, tx, CompileServerOpts { handler: Arc::new(told.clone()), enable_watch: true, export_target: *r.pick(&[ExportTarget::Paged, ExportTarget::Html]) });
        let p = Inst { no: 0, name: "primary".into(), entry: e, inputs: 0, fonts, log: vec![], must: false, may: false, committed: 0, doc: None, bits: [false; 3] };
        Sim { c, rx, told, insts: vec![p], next: 1, editor: vec![Mem::new()], pending: Default::default(), waiting: vec![], results: vec![], deps: BTreeMap::new(), seen: HashMap::new(), trace: vec![], step: 0 }
    }
    fn applied(&self) -> &Mem {
        &self.editor[self.editor.len() - 1 - self.pending.len()]
    }
    fn view(&self, i: &Inst) -> String {
        view(&i.entry, i.inputs, i.fonts.which, self.applied(), &i.log)
    }
    fn each(&mut self, f: impl Fn(&mut Inst)) {
        self.insts.iter_mut().for_each(f)
    }
    fn find(&mut self, n: &str) -> Option<&mut Inst> {
        self.insts.iter_mut().find(|i| i.name == n)
    }
    /// the messages to the watcher: the dependencies handed over
    fn messages(&mut self) -> (Vec<Vec<PathBuf>>, usize, Result<(), (String, String, String)>) {
        let (mut deps, mut n, mut ok) = (vec![], 0, Ok(()));
        while let Ok(m) = self.rx.try_recv() {
            match m {
                NotifyMessage::SyncDependency(d) => {
                    let mut v = vec![];
                    d.dependencies(&mut |p| v.push(p.to_path_buf()));
                    v.sort();
                    deps.push(v);
                }
                NotifyMessage::UpstreamUpdate(u) => {
                    self.pending.push_back(u);
                    n += 1;
                }
                _ => ok = Err(("an unexpected message to the watcher".into(), String::new(), String::new())),
            }
        }
        (deps, n, ok)
    }
    fn one(&mut self, r: &mut Rng) -> Result<(), (String, String, String)> {
        self.step += 1;
        let n = self.step;
        let name = r.pick(&NAMES).to_string();
        let id = ProjectInsId(name.as_str().into());
        let mut expect_deps: Option<()> = None;
        let mut expect_told: Vec<String> = vec![];
        let mut freed: Option<Vec<PathBuf>> = None;
        match r.below(14) {
            0 | 1 => {
                let cs = change_set(r, n, 4);
                let sync = r.chance(1, 4);
                let last = self.editor.last().unwrap().clone();
                let mut now = if sync { Mem::new() } else { last.clone() };
                cs.removes.iter().for_each(|p| drop(now.remove(&p.to_path_buf())));
                cs.inserts.iter().for_each(|(p, s)| drop(now.insert(p.to_path_buf(), s.content().cloned())));
                let mut gone: BTreeSet<PathBuf> = cs.removes.iter().map(|p| p.to_path_buf()).collect();
                if sync {
                    gone.extend(last.keys().cloned());
                }
                cs.inserts.iter().for_each(|(p, _)| drop(gone.remove(&p.to_path_buf())));
                freed = Some(gone.into_iter().collect());
                self.trace.push(format!("memory {} {}", if sync { "sync" } else { "update" }, changes(&cs)));
                self.editor.push(now);
                self.c.process(Interrupt::Memory(if sync { MemoryEvent::Sync(cs) } else { MemoryEvent::Update(cs) }));
            }
            2 | 3 if !self.pending.is_empty() => {
                let cs = change_set(r, n, 3);
                let u = self.pending.pop_front().unwrap();
                self.trace.push(format!("the watcher answers with {}", changes(&cs)));
                let l = changes(&cs);
                self.each(|i| {
                    i.log.push(l.clone());
                    i.must = true;
                });
                self.c.process(Interrupt::Fs(FilesystemEvent::UpstreamUpdate { changeset: cs, upstream_event: Some(u) }));
            }
            2 | 3 => {
                let cs = change_set(r, n, 3);
                self.trace.push(format!("files {}", changes(&cs)));
                let l = changes(&cs);
                self.each(|i| {
                    i.log.push(l.clone());
                    i.must = true;
                });
                self.c.process(Interrupt::Fs(if r.chance(1, 5) { FilesystemEvent::UpstreamUpdate { changeset: cs, upstream_event: None } } else { FilesystemEvent::Update(cs) }));
            }
            4 => {
                let e = if r.chance(1, 2) { Some(entry(r)) } else { None };
                let i = if r.chance(1, 2) { Some(n) } else { None };
                self.trace.push(format!("task of {name}: entry {:?} inputs {i:?}", e.as_ref().map(|e| (e.root.clone(), e.main))));
                if let Some(p) = self.find(&name) {
                    p.may = true;
                    if let Some(e) = &e {
                        p.entry = e.clone();
                        p.doc = None;
                        p.must = true;
                    }
                    if let Some(i) = i {
                        p.inputs = i;
                        p.must = true;
                    }
                }
                self.c.process(Interrupt::ChangeTask(id, TaskInputs { entry: e, inputs: i.map(|i| Arc::new(LazyHash(Dict(i)))) }));
            }
            5 => {
                let f = Fonts { rev: if r.chance(1, 3) { None } else { NonZeroUsize::new(n as usize + 1) }, which: n };
                self.trace.push(format!("fonts {f:?}"));
                let g = f.clone();
                self.each(|i| {
                    i.fonts = g.clone();
                    i.must = true;
                });
                self.c.process(Interrupt::Font(Arc::new(f)));
            }
            6 => {
                self.trace.push(format!("compile {name}"));
                if let Some(p) = self.find(&name) {
                    p.must = true;
                }
                self.c.process(Interrupt::Compile(id));
            }
            7 if r.chance(1, 2) => {
                self.trace.push(format!("settle {name}"));
                if name != "primary" && self.find(&name).is_some() {
                    self.insts.retain(|i| i.name != name);
                    self.deps.remove(&name);
                    expect_deps = Some(());
                    expect_told.push(format!("removed {name}"));
                }
                self.c.process(Interrupt::Settle(id));
            }
            7 if name != "primary" => {
                let e = entry(r);
                self.trace.push(format!("restart {name}: {:?}", e.main));
                if self.find(&name).is_some() {
                    self.insts.retain(|i| i.name != name);
                    self.deps.remove(&name);
                    expect_deps = Some(());
                    expect_told.push(format!("removed {name}"));
                }
                let p = Inst { no: self.next, name: name.clone(), entry: e.clone(), must: true, committed: 0, doc: None, bits: [false; 3], ..self.insts[0].clone() };
                self.insts.push(p);
                self.next += 1;
                let got = self.c.restart_dedicate(&name, e);
                if !matches!(&got, Ok(i) if *i.0 == *name) {
                    return Err(("a project could not be started".into(), name, format!("{got:?}")));
                }
            }
            8 | 9 => {
                let Some(k) = self.insts.iter().position(|i| i.name == name) else { return Ok(()) };
                let want = self.insts[k].clone();
                let v = self.view(&want);
                let h: Arc<dyn CompileHandler<Feat, ()>> = Arc::new(self.told.clone());
                let p = self.c.projects().find(|p| *p.id.0 == *name).unwrap();
                let rev = p.verse.revision.get();
                self.trace.push(format!("start {name} at {rev}"));
                let both = r.chance(1, 6);
                let started = if both {
                    let g = p.may_compile2(|_| ()).map(|f| f());
                    let s = g.is_some();
                    if let Some(g) = g {
                        if seen(&g.snap.world) != v {
                            return Err(("a compilation works on something else than the project at its start".into(), v, seen(&g.snap.world)));
                        }
                    }
                    s
                } else {
                    let j = p.may_compile(&h);
                    let s = j.is_some();
                    if let Some(j) = j {
                        let mut deps: Vec<PathBuf> = depends(&want.entry, &self.editor[self.editor.len() - 1 - self.pending.len()], want.log.len()).into_iter().filter_map(|i| place(i).ok()?.to_err().ok()).collect();
                        deps.sort();
                        self.waiting.push((Job { inst: want.no, name: name.clone(), rev, view: v, deps }, Box::new(j)));
                        expect_told.push(format!("compiling {name} {rev}"));
                    }
                    s
                };
                let active = want.entry.main.is_some();
                if started && !active {
                    return Err(("a compilation started without an active entry".into(), "none".into(), name));
                }
                if started && !want.must && !want.may {
                    return Err(("a compilation started without a reason".into(), "none".into(), name));
                }
                if !started && active && want.must {
                    return Err(("a compilation did not start though there is a reason and an active entry".into(), "it starts".into(), name));
                }
                if started {
                    let i = &mut self.insts[k];
                    (i.must, i.may) = (false, false);
                    i.bits = [false; 3];
                }
            }
            10 | 11 if !self.waiting.is_empty() => {
                let k = r.below(self.waiting.len());
                let (j, run) = self.waiting.swap_remove(k);
                self.trace.push(format!("run {} of {}", j.rev, j.name));
                let a = run();
                let main_ok = compiled(&a.graph.snap.world.entry, &j.view);
                let got = a.doc.as_ref().map(|d| d.0.to_string());
                if got != main_ok {
                    return Err(("a compilation made something else than the project at its start".into(), format!("{main_ok:?}"), format!("{got:?}")));
                }
                expect_told.push(format!("{} {} {}", if got.is_some() { "success" } else { "error" }, j.name, j.rev));
                expect_told.push(format!("done {} {} {}", j.name, j.rev, got.is_some()));
                self.results.push((j, a));
            }
            12 | 13 | 10 | 11 if !self.results.is_empty() => {
                let k = r.below(self.results.len());
                let again = r.chance(1, 5);
                let (no, jn, rev, deps, a) = {
                    let (j, a) = &self.results[k];
                    (j.inst, j.name.clone(), j.rev, j.deps.clone(), a.clone())
                };
                if !again {
                    self.results.swap_remove(k);
                }
                self.trace.push(format!("result {rev} of {jn}"));
                let doc = a.doc.as_ref().map(|d| d.0.to_string());
                if let Some(i) = self.insts.iter_mut().find(|i| i.no == no) {
                    if rev > i.committed {
                        i.committed = rev;
                        if doc.is_some() {
                            i.doc = doc;
                        }
                        self.deps.insert(jn, deps);
                        expect_deps = Some(());
                    }
                }
                self.c.process(Interrupt::Compiled(a));
            }
            _ => {
                let want = self.view(&self.insts[0]);
                let g = self.c.snapshot();
                let got = seen(&g.snap.world);
                if got != want {
                    return Err(("a snapshot is not of the current state".into(), want, got));
                }
                return Ok(());
            }
        }
        let before = self.applied().clone();
        let (deps, sent, ok) = self.messages();
        ok?;
        if let Some(f) = freed {
            let now = self.pending.len() == sent && f.is_empty();
            if now && sent != 0 || !now && sent != 1 {
                return Err(("an in-memory change waits for the watcher exactly when it frees files or others wait".into(), format!("{} to the watcher", !now as u8), format!("{sent} to the watcher")));
            }
            if sent == 1 {
                let mut got: Vec<PathBuf> = self.pending.back().unwrap().invalidates.iter().map(|p| p.to_path_buf()).collect();
                got.sort();
                if got != f {
                    return Err(("the files the editor does not hold any more are read again".into(), format!("{f:?}"), format!("{got:?}")));
                }
            } else {
                self.each(|i| i.may = true);
                if *self.applied() != self.editor[self.editor.len() - 2] {
                    self.each(|i| i.must = true);
                }
            }
        } else if sent != 0 {
            return Err(("a memory event out of nowhere".into(), "none".into(), format!("{sent}")));
        }
        let _ = before;
        let all: Vec<PathBuf> = {
            let mut v: Vec<PathBuf> = self.deps.values().flatten().cloned().collect();
            v.sort();
            v
        };
        let want = if expect_deps.is_some() { vec![all] } else { vec![] };
        if deps != want {
            return Err(("the dependencies handed to the watcher".into(), format!("{want:?}"), format!("{deps:?}")));
        }
        let told = self.told.take();
        if told != expect_told {
            return Err(("what the handler is told".into(), format!("{expect_told:?}"), format!("{told:?}")));
        }
        self.compare()
    }
    fn compare(&mut self) -> Result<(), (String, String, String)> {
        let wants: Vec<(Inst, String)> = self.insts.iter().map(|i| (i.clone(), self.view(i))).collect();
        let n = self.c.projects().count();
        if n != wants.len() {
            return Err(("the projects".into(), format!("{}", wants.len()), format!("{n}")));
        }
        for (w, v) in wants {
            let Some(p) = self.c.projects().find(|p| *p.id.0 == *w.name) else { return Err(("a project is missing".into(), w.name, "none".into())) };
            let got = view(&p.verse.entry, p.verse.inputs.0 .0, p.verse.font_resolver.which, &p.verse.vfs.mem, &p.verse.vfs.log);
            if got != v {
                return Err((format!("what {} is compiled from", w.name), v, got));
            }
            let doc = p.latest_success_doc.as_ref().map(|d| d.0.to_string());
            if doc != w.doc {
                return Err((format!("the last successful document of {}", w.name), format!("{:?}", w.doc), format!("{doc:?}")));
            }
            if w.committed != 0 && p.committed_revision != w.committed {
                return Err((format!("the committed revision of {}", w.name), format!("{}", w.committed), format!("{}", p.committed_revision)));
            }
            if w.must && !p.reason.any() {
                return Err((format!("{} changed, or was to be compiled, and has no reason to", w.name), "a reason".into(), "none".into()));
            }
            let bits = [p.reason.by_memory_events, p.reason.by_fs_events, p.reason.by_entry_update];
            if (0..3).any(|k| w.bits[k] && !bits[k]) {
                return Err((format!("a reason to compile {} is lost (by memory, files, entry)", w.name), format!("{:?}", w.bits), format!("{bits:?}")));
            }
            let rev = p.verse.revision.get();
            self.insts.iter_mut().find(|i| i.no == w.no).unwrap().bits = bits;
            let old = self.seen.entry((w.no, rev)).or_insert_with(|| v.clone());
            if *old != v {
                return Err((format!("{} changed and kept its revision {rev}", w.name), old.clone(), v));
            }
        }
        Ok(())
    }
}
fn main() {
    let mut cx = Ctx::new();
    cx.rule = "histories of interrupts, starts, runs and results in any order, for a primary project and two others that come and go".into();
    let mut n = 0;
    while cx.more(n, 4000, 60000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let steps = r.range(3, 60);
        let mut s = Sim::new(&mut r);
        cx.case(&format!("history {n} of {steps} steps"));
        let mut bad = None;
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for _ in 0..steps {
                if let Err(e) = s.one(&mut r) {
                    bad = Some(e);
                    break;
                }
            }
        }));
        if res.is_err() {
            bad = Some(("a panic".into(), "none".into(), "panic".into()));
        }
        let t = s.trace.join("\n");
        cx.eval(&t);
        if let Some((what, want, got)) = bad {
            cx.fail(&what, &t, &want, &got);
        }
    }
    cx.finish();
}
