//@include ../lift/common.rs
//@include ../lift/vfs.rs
//@include ../lift/source.rs
// C28: the documents open in the editor: histories of open, change and close against a client that edits the same texts.
use std::cmp::Ordering;
use vx::{Ctx, Rng};
macro_rules! vx_log { ($($t:tt)*) => {{ let _ = format!($($t)*); }} }
#[allow(unused_imports)]
mod log {
    pub(crate) use {vx_log as trace, vx_log as debug, vx_log as info, vx_log as warn, vx_log as error};
}
#[derive(Debug)]
pub struct Error(String);
pub type Result<T, E = Error> = std::result::Result<T, E>;
macro_rules! error_once { ($e:expr $(, $k:ident: $v:expr)* $(,)?) => { Error(format!(concat!("{}" $(, " ", stringify!($k), "={}")*), $e $(, $v)*)) } }
macro_rules! vx_anyhow { ($($t:tt)*) => { Error(format!($($t)*)) } }
mod anyhow {
    pub(crate) use vx_anyhow as anyhow;
}
#[derive(Debug)]
pub struct ResponseError(String);
pub type LspResult<T> = std::result::Result<T, ResponseError>;
fn invalid_params(e: Error) -> ResponseError {
    ResponseError(e.0)
}
//@rawitems crates/tinymist-analysis/src/location.rs to_typst_position to_typst_range PositionEncoding -LspPosition -LspRange -impl:From
//@rawitems crates/tinymist-vfs/src/notify.rs MemoryEvent
//@rawitems crates/tinymist-vfs/src/snapshot.rs FileSnapshot FileChangeSet
pub enum Interrupt {
    Memory(MemoryEvent),
    Other,
}
pub trait CompilerFeat {
    type AccessModel;
}
pub struct Feat;
impl CompilerFeat for Feat {
    type AccessModel = ();
}
type Mem = HashMap<PathBuf, FileResult<Bytes>>;
/// the shadows of a view of the files (C23, C30)
pub struct RevisingVfs<'a, M> {
    mem: &'a mut Mem,
    m: std::marker::PhantomData<M>,
}
impl<M> RevisingVfs<'_, M> {
    pub fn reset_shadow(&mut self) {
        self.mem.clear();
    }
    pub fn map_shadow(&mut self, p: &Path, s: FileSnapshot) -> FileResult<()> {
        self.mem.insert(p.into(), s.content().cloned());
        Ok(())
    }
    pub fn unmap_shadow(&mut self, p: &Path) -> FileResult<()> {
        self.mem.remove(p);
        Ok(())
    }
}
pub struct ProjectCompiler<F, Ext> {
    x: std::marker::PhantomData<(F, Ext)>,
}
impl<F: CompilerFeat, Ext> ProjectCompiler<F, Ext> {
//@rawimpl crates/tinymist-project/src/compiler.rs ProjectCompiler apply_memory_changes
}
type LspComputeGraph = ();
/// the compiler: it applies what it is told
#[derive(Default)]
pub struct ProjectState {
    mem: Mem,
}
impl ProjectState {
    pub fn interrupt(&mut self, i: Interrupt) {
        if let Interrupt::Memory(e) = i {
            ProjectCompiler::<Feat, ()>::apply_memory_changes(&mut RevisingVfs { mem: &mut self.mem, m: Default::default() }, e);
        }
    }
    pub fn stop(&mut self) {}
    pub fn snapshot(&mut self) -> Result<()> {
        Ok(())
    }
}
mod rayon {
    pub fn spawn(f: impl FnOnce()) {
        f()
    }
}
#[derive(Clone, Default)]
pub struct Any;
#[derive(Clone)]
pub struct ConstConfig {
    position_encoding: PositionEncoding,
}
pub struct Config(ConstConfig);
pub struct ServerState {
    client: Any,
    config: Config,
    editor_tx: Any,
    memory_changes: HashMap<Arc<Path>, Source>,
    project: ProjectState,
}
impl ServerState {
    fn const_config(&self) -> &ConstConfig {
        &self.config.0
    }
    fn project(_: &Config, _: Any, _: Any) -> ProjectState {
        ProjectState::default()
    }
    fn implicit_focus_entry(&mut self, f: impl FnOnce() -> Option<ImmutPath>, _: char) {
        let _ = f();
    }
}
#[derive(Clone, Debug)]
pub struct Url(PathBuf);
impl fmt::Display for Url {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
fn as_path_(u: Url) -> PathBuf {
    u.0
}
#[derive(Clone, Debug)]
pub struct TextDocumentContentChangeEvent {
    range: Option<LspRange>,
    range_length: Option<u32>,
    text: String,
}
pub struct TextDocumentItem {
    uri: Url,
    language_id: String,
    version: i32,
    text: String,
}
pub struct TextDocumentIdentifier {
    uri: Url,
}
pub struct VersionedTextDocumentIdentifier {
    uri: Url,
    version: i32,
}
pub struct DidOpenTextDocumentParams {
    text_document: TextDocumentItem,
}
pub struct DidCloseTextDocumentParams {
    text_document: TextDocumentIdentifier,
}
pub struct DidChangeTextDocumentParams {
    text_document: VersionedTextDocumentIdentifier,
    content_changes: Vec<TextDocumentContentChangeEvent>,
}
impl ServerState {
//@rawimpl crates/tinymist/src/input.rs ServerState update_sources,create_source,remove_source,edit_source,query_source
}
impl ServerState {
//@rawimpl crates/tinymist/src/lsp.rs ServerState did_open,did_close,did_change
}
impl ServerState {
//@rawimpl crates/tinymist/src/project.rs ServerState reload_projects
}

fn text(r: &mut Rng, n: usize) -> String {
    let bits = ["a", "b", "é", "字", "😀", "\n", "\r\n", "\r", "\n\n", " ", "xyz", "= H\n", "\u{feff}", "\t"];
    let mut s = String::new();
    for _ in 0..r.below(n) {
        s += *r.pick(&bits);
    }
    s
}
/// the client's position of an offset outside line breaks: lines end at LF, CR LF or CR
fn position(t: &str, o: usize, e: PositionEncoding) -> LspPosition {
    let (mut line, mut start) = (0, 0);
    let b = t.as_bytes();
    for i in 0..o {
        if b[i] == b'\n' || b[i] == b'\r' && b.get(i + 1) != Some(&b'\n') {
            line += 1;
            start = i + 1;
        }
    }
    let s = &t[start..o];
    LspPosition::new(line, match e { PositionEncoding::Utf8 => s.len(), PositionEncoding::Utf16 => s.encode_utf16().count() } as u32)
}
fn change(r: &mut Rng, t: &mut String, e: PositionEncoding) -> TextDocumentContentChangeEvent {
    let new = text(r, 4);
    if r.chance(1, 6) {
        *t = new.clone();
        return TextDocumentContentChangeEvent { range: None, range_length: None, text: new };
    }
    let places: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).filter(|&o| o == 0 || !(t.as_bytes()[o - 1] == b'\r' && t.as_bytes().get(o) == Some(&b'\n'))).collect();
    let (mut a, mut b) = (*r.pick(&places), *r.pick(&places));
    if r.chance(1, 4) {
        b = a;
    }
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    let far = |r: &mut Rng, o: usize, t: &str| {
        let mut p = position(t, o, e);
        let rest = t[o..].chars().next();
        if matches!(rest, None | Some('\n') | Some('\r')) && r.chance(1, 4) {
            // the end of a line may be given as any column beyond it
            p.character = p.character.saturating_add([1, 7, u32::MAX - 100][r.below(3)]);
        } else if rest.is_none() && r.chance(1, 4) {
            p = LspPosition::new(p.line + 1 + r.below(3) as u32, r.below(3) as u32);
        }
        p
    };
    let range = LspRange::new(far(r, a, t), far(r, b, t));
    t.replace_range(a..b, &new);
    TextDocumentContentChangeEvent { range: Some(range), range_length: None, text: new }
}
fn main() {
    let mut cx = Ctx::new();
    cx.rule = "histories of open, incremental and full change, close, reload and query for three documents; the texts of the server and of the compiler against the client's".into();
    let paths: [PathBuf; 4] = ["/w/a.typ", "/w/b.typ", "/w/ü.typ", "/w/gone.typ"].map(Into::into);
    let mut n = 0;
    while cx.more(n, 12000, 600000) && !cx.failed() {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let e = *r.pick(&[PositionEncoding::Utf16, PositionEncoding::Utf8]);
        let mut s = ServerState { client: Any, config: Config(ConstConfig { position_encoding: e }), editor_tx: Any, memory_changes: HashMap::new(), project: ProjectState::default() };
        let mut want: BTreeMap<PathBuf, String> = BTreeMap::new();
        let mut log = vec![format!("{e:?}")];
        for _ in 0..r.range(2, 14) {
            let p = paths[if r.chance(1, 2) { 0 } else { r.below(4) }].clone();
            let uri = Url(p.clone());
            match r.below(10) {
                0 | 1 => {
                    let t = text(&mut r, 12);
                    log.push(format!("open {p:?} {t:?}"));
                    want.insert(p.clone(), t.clone());
                    cx.case(&log.join("; "));
                    let Some(x) = cx.guard("did_open", &log.join("; "), || s.did_open(DidOpenTextDocumentParams { text_document: TextDocumentItem { uri, language_id: "typst".into(), version: 0, text: t } })) else { return cx.finish() };
                    if let Err(x) = x {
                        cx.fail("open", &log.join("; "), "done", &format!("{x:?}"));
                    }
                }
                2 => {
                    log.push(format!("close {p:?}"));
                    want.remove(&p);
                    let Some(x) = cx.guard("did_close", &log.join("; "), || s.did_close(DidCloseTextDocumentParams { text_document: TextDocumentIdentifier { uri } })) else { return cx.finish() };
                    if let Err(x) = x {
                        cx.fail("close", &log.join("; "), "done", &format!("{x:?}"));
                    }
                }
                3 => {
                    log.push("reload".into());
                    if cx.guard("reload_projects", &log.join("; "), || s.reload_projects()).is_none() {
                        return cx.finish();
                    }
                }
                4 => {
                    let got = s.query_source(p.as_path().into(), |s| Ok(s.text().to_owned())).ok();
                    if got != want.get(&p).cloned() {
                        cx.fail("query of a document", &format!("{}; query {p:?}", log.join("; ")), &format!("{:?}", want.get(&p)), &format!("{got:?}"));
                    }
                }
                _ => {
                    let mut t = want.get(&p).cloned();
                    let mut scratch = String::new();
                    let mut ch = vec![];
                    for _ in 0..r.below(4) {
                        ch.push(change(&mut r, t.as_mut().unwrap_or(&mut scratch), e));
                    }
                    log.push(format!("change {p:?} {:?}", ch.iter().map(|c| (c.range.map(|r| (r.start.line, r.start.character, r.end.line, r.end.character)), &c.text)).collect::<Vec<_>>()));
                    let known = t.is_some();
                    if let Some(t) = t {
                        want.insert(p.clone(), t);
                    }
                    cx.case(&log.join("; "));
                    let Some(x) = cx.guard("did_change", &log.join("; "), || s.did_change(DidChangeTextDocumentParams { text_document: VersionedTextDocumentIdentifier { uri, version: 1 }, content_changes: ch })) else { return cx.finish() };
                    if x.is_ok() != known {
                        cx.fail("change", &log.join("; "), if known { "done" } else { "an error: not open" }, &format!("{x:?}"));
                    }
                }
            }
            let held: BTreeMap<PathBuf, String> = s.memory_changes.iter().map(|(p, s)| (p.to_path_buf(), s.text().to_owned())).collect();
            if held != want {
                cx.fail("texts the server holds", &log.join("; "), &format!("{want:?}"), &format!("{held:?}"));
            }
            let told: BTreeMap<PathBuf, String> = s.project.mem.iter().map(|(p, c)| (p.clone(), c.as_ref().map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_else(|e| format!("error {e:?}")))).collect();
            if told != want {
                cx.fail("texts the compiler is given", &log.join("; "), &format!("{want:?}"), &format!("{told:?}"));
            }
            if cx.failed() {
                break;
            }
        }
        cx.eval(&log.join("; "));
    }
    cx.finish()
}
