//@include ../lift/common.rs
// C25: resource paths through their text, and stored file paths back to system paths.
use core::fmt;
use std::path::{Component, Path, PathBuf};
use std::str::FromStr;
use vx::{Ctx, Rng};
pub type EcoString = String;
mod tinymist_std {
    pub mod path {
        use std::path::*;
        /// where a path leads, lexically
        pub fn lead(p: &Path) -> Vec<String> {
            let mut v: Vec<String> = vec![];
            for c in p.components() {
                match c {
                    Component::CurDir => {}
                    Component::ParentDir => {
                        if v.last().is_some_and(|l| l != "/" && l != "..") {
                            v.pop();
                        } else if v.last().map(|l| l.as_str()) != Some("/") {
                            v.push("..".into());
                        }
                    }
                    c => v.push(c.as_os_str().to_str().unwrap().into()),
                }
            }
            v
        }
        /// tinymist_std::path::diff on absolute paths (proved and replayed under C11)
        pub fn diff(fr: &Path, to: &Path) -> Option<PathBuf> {
            let (a, b) = (lead(fr), lead(to));
            let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
            let mut r = PathBuf::new();
            for _ in k..b.len() {
                r.push("..");
            }
            for x in &a[k..] {
                r.push(x);
            }
            Some(r)
        }
    }
}
use tinymist_std::path::lead;
pub struct PackageSpec(String);
impl fmt::Display for PackageSpec {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
pub struct VirtualPath(PathBuf);
impl VirtualPath {
    pub fn as_rooted_path(&self) -> &Path {
        &self.0
    }
    pub fn as_rootless_path(&self) -> &Path {
        self.0.strip_prefix("/").unwrap_or(&self.0)
    }
}
#[derive(Clone, Copy)]
pub struct FileId(&'static (Option<PackageSpec>, VirtualPath));
impl FileId {
    pub fn package(&self) -> Option<&PackageSpec> {
        self.0 .0.as_ref()
    }
    pub fn vpath(&self) -> &VirtualPath {
        &self.0 .1
    }
}
//@raw crates/tinymist-std/src/path.rs unix_slash
//@rawitems crates/tinymist-task/src/primitives.rs ResourcePath -impl:Serialize -impl:Deserialize -Id -Scalar -PathPattern -Pages

fn name(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        s += *r.pick(&["a", "b", "main.typ", ":", "é", " ", "-", "$root", "@x", "c.d"]);
    }
    if s == "." || s == ".." { "a".into() } else { s }
}
fn path(r: &mut Rng, abs: bool) -> PathBuf {
    let mut s = String::from(if abs { "/" } else { "" });
    let n = r.range(1, 4);
    for i in 0..n {
        if i > 0 {
            s += "/";
        }
        match r.below(8) {
            0 => s += "..",
            1 => s += ".",
            _ => s += &name(r),
        }
    }
    PathBuf::from(s)
}
fn main() {
    let mut cx = Ctx::new();
    cx.rule = "resource paths of random file names, packages and relative and absolute system paths through their text; random texts; stored paths back to system paths".into();
    let cwd = std::env::current_dir().unwrap();
    let mut n = 0;
    while cx.more(n, 40000, 1000000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        match r.below(4) {
            0 => {
                let mut t = String::new();
                for _ in 0..r.below(5) {
                    t += *r.pick(&["file", "file_id", ":", ":", "a", "/", "@preview/x:0.1.0", ""]);
                }
                let show = format!("parse {t:?}");
                cx.case(&show);
                let Some(got) = cx.guard("from_str", &show, || ResourcePath::from_str(&t)) else { break };
                if got.is_ok() != t.contains(':') {
                    cx.fail("a text without a scheme and a path is rejected", &show, &format!("accepted: {}", t.contains(':')), &format!("{got:?}"));
                    break;
                }
                if let Ok(p) = got {
                    if p.to_string() != t {
                        cx.fail("a read resource path prints as it was", &show, &t, &p.to_string());
                        break;
                    }
                }
                cx.eval(&show);
            }
            1 => {
                let pkg = r.chance(1, 2).then(|| PackageSpec(format!("@{}/{}:0.{}.0", r.pick(&["preview", "local"]), name(&mut r).replace(['/', ':'], "x"), r.below(9))));
                let vp = PathBuf::from("/").join(path(&mut r, false));
                let show = format!("file id {:?} {vp:?}", pkg.as_ref().map(|p| p.0.clone()));
                cx.case(&show);
                let id = FileId(Box::leak(Box::new((pkg, VirtualPath(vp)))));
                let Some((rp, back)) = cx.guard("from_file_id", &show, || {
                    let p = ResourcePath::from_file_id(id);
                    let b = ResourcePath::from_str(&p.to_string());
                    (p, b)
                }) else { break };
                if back.as_ref() != Ok(&rp) {
                    cx.fail("a stored resource path reads back", &show, &format!("{rp:?}"), &format!("{back:?}"));
                    break;
                }
                if rp.to_abs_path(&cwd).is_some() || rp.to_rel_path(&cwd).is_some() {
                    cx.fail("only file paths name system files", &show, "None", "Some");
                    break;
                }
                cx.eval(&show);
            }
            _ => {
                let abs = r.chance(1, 2);
                let p = if abs && r.chance(1, 2) { cwd.join(path(&mut r, false)) } else { path(&mut r, abs) };
                let show = format!("system path {p:?}");
                cx.case(&show);
                let Some((rp, back)) = cx.guard("from_user_sys", &show, || {
                    let q = ResourcePath::from_user_sys(&p);
                    let b = ResourcePath::from_str(&q.to_string());
                    (q, b)
                }) else { break };
                if back.as_ref() != Ok(&rp) {
                    cx.fail("a stored resource path reads back", &show, &format!("{rp:?}"), &format!("{back:?}"));
                    break;
                }
                let want = lead(&cwd.join(&p));
                for (what, got) in [("to_abs_path", rp.to_abs_path(&cwd)), ("to_rel_path", rp.to_rel_path(&cwd).map(|x| cwd.join(x)))] {
                    if got.as_ref().map(|g| lead(g)) != Some(want.clone()) {
                        cx.fail(&format!("{what} gives the file it was made from"), &show, &want.join(" "), &format!("{got:?}"));
                        break;
                    }
                }
                cx.eval(&show);
            }
        }
    }
    cx.finish()
}
