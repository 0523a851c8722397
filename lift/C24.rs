//@include ../lift/common.rs
// C24: workspace identities over histories of mounting roots in any textual form.
use core::fmt;
use std::borrow::Cow;
use std::collections::HashMap;
use std::ops::Deref;
use std::path::{Component, Path, PathBuf};
use std::sync::{Arc, LazyLock};
use vx::{Ctx, Rng};
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct EcoString(&'static str);
impl EcoString {
    pub const fn inline(s: &'static str) -> Self {
        EcoString(s)
    }
    pub fn as_str(&self) -> &str {
        self.0
    }
}
impl Deref for EcoString {
    type Target = str;
    fn deref(&self) -> &str {
        self.0
    }
}
impl PartialEq<str> for EcoString {
    fn eq(&self, o: &str) -> bool {
        self.0 == o
    }
}
impl PartialEq<&str> for EcoString {
    fn eq(&self, o: &&str) -> bool {
        self.0 == *o
    }
}
#[macro_export]
macro_rules! eco_format { ($($t:tt)*) => { EcoString(Box::leak(format!($($t)*).into_boxed_str())) } }
pub type ImmutPath = Arc<Path>;
pub struct RwLock<T>(std::sync::RwLock<T>);
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock(std::sync::RwLock::new(t))
    }
    pub fn read(&self) -> std::sync::RwLockReadGuard<'_, T> {
        self.0.read().unwrap()
    }
    pub fn write(&self) -> std::sync::RwLockWriteGuard<'_, T> {
        self.0.write().unwrap()
    }
}
/// the path-clean crate (lexical)
pub trait PathClean {
    fn clean(&self) -> PathBuf;
}
impl PathClean for Path {
    fn clean(&self) -> PathBuf {
        let mut out: Vec<Component> = vec![];
        for c in self.components() {
            match c {
                Component::CurDir => {}
                Component::ParentDir => match out.last() {
                    Some(Component::RootDir) => {}
                    Some(Component::Normal(_)) => {
                        out.pop();
                    }
                    _ => out.push(c),
                },
                c => out.push(c),
            }
        }
        if out.is_empty() { PathBuf::from(".") } else { out.iter().collect() }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct PackageVersion {
    pub major: u32,
    pub minor: u32,
    pub patch: u32,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct PackageSpec {
    pub namespace: EcoString,
    pub name: EcoString,
    pub version: PackageVersion,
}
#[derive(Clone, Debug, PartialEq)]
pub struct VirtualPath(PathBuf);
impl VirtualPath {
    pub fn new(p: impl AsRef<Path>) -> Self {
        VirtualPath(Path::new("/").join(p))
    }
    pub fn as_rooted_path(&self) -> &Path {
        &self.0
    }
    pub fn as_rootless_path(&self) -> &Path {
        self.0.strip_prefix("/").unwrap_or(&self.0)
    }
    pub fn join(&self, p: &str) -> VirtualPath {
        VirtualPath(self.0.join(p))
    }
    pub fn resolve(&self, root: &Path) -> Option<PathBuf> {
        Some(root.join(self.as_rootless_path()))
    }
}
#[derive(Clone, Copy, Debug)]
pub struct TypstFileId(&'static (Option<PackageSpec>, VirtualPath));
impl TypstFileId {
    pub fn new(p: Option<PackageSpec>, v: VirtualPath) -> Self {
        TypstFileId(Box::leak(Box::new((p, v))))
    }
    pub fn package(self) -> Option<&'static PackageSpec> {
        self.0 .0.as_ref()
    }
    pub fn vpath(self) -> &'static VirtualPath {
        &self.0 .1
    }
}
#[derive(Debug)]
pub enum FileError {
    AccessDenied,
    Other(Option<EcoString>),
}
pub type FileResult<T> = Result<T, FileError>;
//@rawitems crates/tinymist-vfs/src/path_mapper.rs WorkspaceResolver RootResolver PathResolution

struct Pk;
impl RootResolver for Pk {
    fn resolve_package_root(&self, pkg: &PackageSpec) -> FileResult<ImmutPath> {
        Ok(Path::new("/packages").join(pkg.name.as_str()).into())
    }
}
/// a root in some textual form, and what it is known by
fn root(r: &mut Rng) -> (String, PathBuf) {
    let mut s = String::from(*r.pick(&["/", "/", "/", "", "//", "./", "/./", "/../"]));
    for i in 0..r.below(5) {
        if i > 0 {
            s += *r.pick(&["/", "/", "//", "/./"]);
        }
        s += *r.pick(&["a", "b", "é", "..", ".", "a b", "p0"]);
    }
    if r.chance(1, 4) {
        s += "/";
    }
    let c = Path::new(&s).clean();
    (s, c)
}
fn main() {
    let mut cx = Ctx::new();
    cx.rule = "histories of mounting roots in random textual forms as workspaces and untitled documents, with rootless and package files in between, against a table of cleaned roots".into();
    let mut known: Vec<(PathBuf, WorkspaceId)> = vec![];
    let mut n = 0;
    while cx.more(n, 3000, 60000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let (text, clean) = root(&mut r);
        let p: ImmutPath = Path::new(&text).into();
        let show = format!("mount {text:?} (call {n})");
        cx.case(&show);
        let Some(id) = cx.guard("workspace_id", &show, || WorkspaceResolver::workspace_id(&p)) else { break };
        match known.iter().find(|k| k.0 == clean) {
            Some(k) if k.1 == id => {}
            Some(k) => {
                cx.fail("the same root gives the same identity", &show, &format!("{:?}", k.1 .0), &format!("{:?}", id.0));
                break;
            }
            None if known.iter().any(|k| k.1 == id) => {
                cx.fail("different roots give different identities", &show, "a new identity", &format!("{:?}", id.0));
                break;
            }
            None => known.push((clean.clone(), id)),
        }
        let k = r.pick(&known).clone();
        let Some(back) = cx.guard("path", &show, || k.1.path()) else { break };
        if *back != *k.0 {
            cx.fail("an identity resolves to its root", &format!("{show}, identity {}", k.1 .0), &format!("{:?}", k.0), &format!("{back:?}"));
            break;
        }
        let v = VirtualPath::new("main.typ");
        let (what, fid, want) = match r.below(5) {
            0 => ("workspace file", WorkspaceResolver::workspace_file(Some(&p), v), format!("workspace {}", id.0)),
            1 => ("untitled file", WorkspaceResolver::rooted_untitled(Some(&p), v), format!("untitled {}", id.0)),
            2 => ("rootless file", WorkspaceResolver::rootless_file(v), "rootless".into()),
            3 => ("rootless file", if r.chance(1, 2) { WorkspaceResolver::workspace_file(None, v) } else { WorkspaceResolver::rooted_untitled(None, v) }, "rootless".into()),
            _ => {
                let ns = *r.pick(&["preview", "local", "wss", "w", "WS"]);
                let nm = *r.pick(&["p0", "p1", "x", ""]);
                ("package file", TypstFileId::new(Some(PackageSpec { namespace: EcoString(ns), name: EcoString(nm), version: PackageVersion { major: 0, minor: 0, patch: r.below(3) as u32 } }), v), "package".into())
            }
        };
        let show = format!("{what} for {text:?} (call {n}): {:?}", fid.package());
        let Some(got) = cx.guard("resolve", &show, || match WorkspaceResolver::resolve(fid) {
            Ok(WorkspaceResolution::Workspace(i)) => format!("workspace {}", i.0),
            Ok(WorkspaceResolution::UntitledRooted(i)) => format!("untitled {}", i.0),
            Ok(WorkspaceResolution::Rootless) => "rootless".into(),
            Ok(WorkspaceResolution::Package) => "package".into(),
            Err(e) => format!("{e:?}"),
        }) else { break };
        if got != want {
            cx.fail("a file identity is recognised as its kind", &show, &want, &got);
            break;
        }
        let Some(rt) = cx.guard("resolve_root", &show, || Pk.resolve_root(fid)) else { break };
        let want_root = match want.split(' ').next().unwrap() {
            "rootless" => None,
            "package" => Some(Path::new("/packages").join(fid.package().unwrap().name.as_str())),
            _ => Some(clean.clone()),
        };
        match rt {
            Ok(g) if g.as_deref().map(|p| p.to_owned()) == want_root => {}
            o => {
                cx.fail("a file's root is that of its identity", &show, &format!("{want_root:?}"), &format!("{o:?}"));
                break;
            }
        }
        if WorkspaceResolver::is_workspace_file(fid) != (want.starts_with("workspace") || want.starts_with("untitled")) || WorkspaceResolver::is_package_file(fid) != (want == "package") {
            cx.fail("is_workspace_file and is_package_file agree with the kind", &show, &want, "otherwise");
            break;
        }
        // a file of which only the path is known belongs to its folder
        let file = Path::new(&text).join(*r.pick(&["x.typ", "é", ".."]));
        let Some(got) = cx.guard("file_with_parent_root", &format!("{file:?}"), || WorkspaceResolver::file_with_parent_root(&file)) else { break };
        let want = if file.is_absolute() { file.file_name().map(|f| (file.parent().unwrap().clean(), VirtualPath::new(f))) } else { None };
        let got = got.map(|f| (Pk.resolve_root(f).ok().flatten().map(|p| p.to_path_buf()).unwrap_or_default(), f.vpath().clone()));
        if let Some((d, _)) = &got {
            let rid = WorkspaceResolver::workspace_id(&ImmutPath::from(d.clone()));
            if !known.iter().any(|k| k.0 == *d) {
                known.push((d.clone(), rid));
            }
        }
        if got != want {
            cx.fail("a file of its folder", &format!("{file:?}"), &format!("{want:?}"), &format!("{got:?}"));
            break;
        }
        cx.eval(&show);
    }
    cx.finish()
}
