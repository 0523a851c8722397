//! C10, C11: textual paths against a reference that splits at slashes.
use crate::vx::{Ctx, Rng};
use std::path::{Path, PathBuf};
use tinymist_std::fs::paths::normalize_path;
use tinymist_std::path::{diff, unix_slash};

/// rooted?, the names without '.' and empty ones
fn names(t: &str) -> (bool, Vec<&str>) {
    (t.starts_with('/'), t.split('/').filter(|n| !n.is_empty() && *n != ".").collect())
}
fn text(abs: bool, ns: &[&str]) -> String {
    let t = format!("{}{}", if abs { "/" } else { "" }, ns.join("/"));
    if t.is_empty() { ".".into() } else { t }
}
/// where a path leads: a rooted one never above the root, a relative one possibly up first
fn leads(t: &str) -> (bool, Vec<&str>) {
    let (abs, ns) = names(t);
    let mut out: Vec<&str> = vec![];
    for n in ns {
        match n {
            ".." if out.last().is_some_and(|l| *l != "..") => drop(out.pop()),
            ".." if abs => {}
            n => out.push(n),
        }
    }
    (abs, out)
}
/// '..' removes the name before it, if any
fn resolved(t: &str) -> (bool, Vec<&str>) {
    let (abs, ns) = names(t);
    let mut out: Vec<&str> = vec![];
    for n in ns {
        if n == ".." { out.pop(); } else { out.push(n) }
    }
    (abs, out)
}
const NAMES: &[&str] = &["a", "b", "..", ".", "", "...", "a b", ".a", "ä-😀", "..a", "-", "c", "....", "a\\b", " a", "a ", "\t", "a.", "C:", "~", "%2e%2e", "A", "*", "a:b", "\\", "e\u{301}", "\u{a0}", "a\n", ". .", "\u{2024}."];
fn path(r: &mut Rng, base: Option<&str>) -> String {
    let mut t = String::new();
    if let (Some(b), true) = (base, r.chance(1, 2)) {
        // shares a beginning with the other one
        let cut = b.char_indices().map(|(i, _)| i).filter(|_| r.chance(1, 3)).last().unwrap_or(b.len());
        t.push_str(&b[..cut]);
    } else if r.chance(1, 2) {
        t.push('/');
    }
    let n = if r.chance(1, 8) { 40 } else { 7 };
    for _ in 0..r.below(n) {
        t.push_str(if r.chance(1, 2) { *r.pick(&NAMES[..4]) } else { *r.pick(NAMES) });
        t.push_str(*r.pick(&["/", "/", "/", "//", "/./"]));
    }
    if r.chance(1, 2) { t.pop(); }
    t
}
fn all(n: usize, f: &mut dyn FnMut(&str)) {
    let parts = ["", ".", "..", "a", "b"];
    for len in 0..=n {
        let mut ix = vec![0; len];
        loop {
            f(&ix.iter().map(|i| parts[*i]).collect::<Vec<_>>().join("/"));
            let mut k = 0;
            while k < len && ix[k] == parts.len() - 1 { ix[k] = 0; k += 1; }
            if k == len { break; }
            ix[k] += 1;
        }
    }
}

fn one(cx: &mut Ctx, t: &str) {
    let p = PathBuf::from(t);
    cx.case(t);
    let Some(got) = cx.guard("unix_slash", t, || unix_slash(&p)) else { return };
    let (abs, ns) = names(t);
    let want = text(abs, &ns);
    if got != want {
        cx.fail("slash rendering", &format!("{t:?}"), &want, &got);
        return;
    }
    let Some(n) = cx.guard("normalize_path", t, || normalize_path(&p)) else { return };
    let (abs, ns) = resolved(t);
    let want = text(abs, &ns);
    let want = if want == "." { "" } else { &want };
    let got = n.to_string_lossy().into_owned();
    if names(&got) != names(want) || got.split('/').any(|n| n == "." || n == "..") {
        cx.fail("lexical normalisation", &format!("{t:?}"), want, &got);
        return;
    }
    if normalize_path(&n) != n {
        cx.fail("normalising again changes the path", &format!("{t:?}"), &got, &normalize_path(&n).to_string_lossy());
    }
    cx.eval(if t.contains('/') { t } else { "" });
}
pub fn text_paths(cx: &mut Ctx) {
    cx.rule = "every sequence of up to 6 components of {empty, ., .., a, b}, then random paths, against a reference that splits at slashes".into();
    let mut v = vec![];
    all(if cx.thorough { 8 } else { 6 }, &mut |t| v.push(t.to_owned()));
    for t in v {
        if cx.failed() || !cx.time_left() { return; }
        one(cx, &t);
    }
    let mut n = 0;
    while cx.more(n, 60000, 2000000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let t = path(&mut r, None);
        one(cx, &t);
    }
}

fn pair(cx: &mut Ctx, to: &str, base: &str) {
    let show = format!("from {base:?} to {to:?}");
    cx.case(&show);
    let Some(d) = cx.guard("diff", &show, || diff(Path::new(to), Path::new(base))) else { return };
    let (t, b) = (leads(to), leads(base));
    match &d {
        None if t.0 && b.0 => cx.fail("no way between absolute paths", &show, "a path", "None"),
        None => {}
        Some(p) => {
            let joined = Path::new(base).join(p).to_string_lossy().into_owned();
            if leads(&joined) != t {
                cx.fail("the way does not lead to the target", &show, &text(t.0, &t.1), &format!("{p:?}, so {}", text(leads(&joined).0, &leads(&joined).1)));
                return;
            }
        }
    }
    let (ct, cb) = (text(t.0, &t.1), text(b.0, &b.1));
    for (x, y) in [(ct.as_str(), cb.as_str()), (ct.as_str(), base)] {
        let e = diff(Path::new(x), Path::new(y));
        if e.as_deref().map(|p| leads(p.to_str().unwrap())) != d.as_deref().map(|p| leads(p.to_str().unwrap())) {
            cx.fail("another spelling gives another way", &format!("{show} / from {y:?} to {x:?}"), &format!("{d:?}"), &format!("{e:?}"));
            return;
        }
    }
    cx.eval(if d.is_some() { &show } else { "" });
}
pub fn diffs(cx: &mut Ctx) {
    cx.rule = "every pair of paths of up to 4 components of {empty, ., .., a, b}, then random pairs: base joined with the answer leads to the target, absolute pairs have one, spellings do not matter".into();
    let mut v = vec![];
    all(4, &mut |t| v.push(t.to_owned()));
    let step = if cx.thorough { 1 } else { 7 };
    let mut i = 0;
    while i < v.len() * v.len() {
        if cx.failed() || !cx.time_left() { return; }
        let (a, b) = (v[i / v.len()].clone(), v[i % v.len()].clone());
        pair(cx, &a, &b);
        i += step;
    }
    let mut n = 0;
    while cx.more(n, 60000, 2000000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let b = path(&mut r, None);
        let t = path(&mut r, Some(&b));
        pair(cx, &t, &b);
    }
}
