//! vx: mechanical extraction of functions from the project's current source
//! into a Verus file (or, for uncompiled crates, into a replay crate).
//! See /verif/DESIGN.md, "Extraction".
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::PathBuf;
use std::str::FromStr;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

mod elim;
mod find;
mod passes;
mod rules;

use find::*;
use rules::*;

fn die(msg: String) -> ! {
    // the driver reads this as "undecided: extraction"
    eprintln!("VX-ERROR: {msg}");
    std::process::exit(3)
}

#[derive(Default, Clone)]
pub struct UnitCfg {
    pub rules: Rules,
    pub thread: BTreeSet<String>,
    pub thread_path: BTreeSet<String>,
    pub thread_arg: String,
    pub known: BTreeSet<String>,
    pub inline_async: bool,
    pub opts: BTreeSet<String>,
}

#[derive(Default)]
struct FnDir {
    path: String,
    spec_name: String,
    as_name: Option<String>,
    tags: Vec<String>,
    world: Option<String>,
    ret: Option<String>,
    attrs: String,
    spec: String,
    sig: Option<String>,
    loops: BTreeMap<usize, (String, String)>,
    loopstart: BTreeMap<usize, String>,
    loopinit: BTreeMap<usize, String>,
    loopend: BTreeMap<usize, String>,
    after: BTreeMap<usize, String>,
    before: BTreeMap<usize, String>,
    entry: String,
    rules: Rules,
    opts: BTreeSet<String>,
    ats: Vec<(String, String)>,
}

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut tpl, mut repo, mut out, mut map) = (None, PathBuf::from("/repo"), None, None);
    let mut vacuity = false;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--repo" => repo = args.next().unwrap().into(),
            "--out" => out = args.next(),
            "--map" => map = args.next(),
            "--vacuity" => vacuity = true,
            // contract kept, body left out (the verifier does not accept it)
            "--drop" => DROPPED.with(|d| d.borrow_mut().push(args.next().unwrap())),
            _ => tpl = Some(a),
        }
    }
    let tpl = tpl.expect("template");
    let text = std::fs::read_to_string(&tpl).expect("read template");
    let text = include(&text, std::path::Path::new(&tpl).parent().unwrap());
    let (o, m) = process(&text, &repo, vacuity);
    if let Some(p) = out {
        std::fs::write(p, o).unwrap();
    } else {
        print!("{o}");
    }
    if let Some(p) = map {
        std::fs::write(p, serde_json::to_string_pretty(&m).unwrap()).unwrap();
    }
}

thread_local! { static DROPPED: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) }; }

/// `//@include file` (relative to the template)
fn include(text: &str, dir: &std::path::Path) -> String {
    let mut o = String::new();
    for l in text.lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") {
            let t = std::fs::read_to_string(dir.join(f.trim())).expect("include");
            o.push_str(&include(&t, dir));
        } else {
            o.push_str(l);
            o.push('\n');
        }
    }
    o
}

fn process(text: &str, repo: &PathBuf, vacuity: bool) -> (String, serde_json::Value) {
    let mut src = Sources::new(repo.clone());
    let mut cfg = UnitCfg::default();
    cfg.thread_arg = "Tracked(w)".into();
    // names known to the template: everything declared in its text
    for cap in text.lines() {
        let l = cap.trim();
        if let Some(rest) = l.strip_prefix("//@known ") {
            cfg.known.extend(rest.split_whitespace().map(|s| s.to_string()));
        }
        if let Some(rest) = l.strip_prefix("//@fn ") {
            let p: Vec<_> = rest.split_whitespace().collect();
            cfg.known.insert(p[1].rsplit("::").next().unwrap().to_string());
        }
        let mut r = l;
        while let Some(i) = r.find("fn ") {
            let t = &r[i + 3..];
            let n: String = t.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            if !n.is_empty() && !l.starts_with("//") {
                cfg.known.insert(n);
            }
            r = t;
        }
    }
    let mut out = String::new();
    let mut fns = vec![];
    let mut lines = text.lines().peekable();
    while let Some(line) = lines.next() {
        let l = line.trim();
        let Some(d) = l.strip_prefix("//@") else {
            out.push_str(line);
            out.push('\n');
            continue;
        };
        let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
        match cmd {
            "known" => {}
            "#" => {}
            "rw" | "macro" | "dropcall" => cfg.rules.add(cmd, rest),
            "thread" => cfg.thread.extend(rest.split_whitespace().map(|s| s.to_string())),
            "threadpath" => cfg.thread_path.extend(rest.split_whitespace().map(|s| s.to_string())),
            "threadarg" => cfg.thread_arg = rest.to_string(),
            "option" => {
                for o in rest.split_whitespace() {
                    cfg.opts.insert(o.into());
                    if o == "inline_async" {
                        cfg.inline_async = true;
                    }
                }
            }
            "type" => {
                // //@type path Name [attrs..]
                let p: Vec<_> = rest.splitn(3, ' ').collect();
                let item = src.find_type(p[0], p[1]).unwrap_or_else(|| die(format!("lost anchor: type {} in {}", p[1], p[0])));
                out.push_str(p.get(2).copied().unwrap_or(""));
                out.push('\n');
                out.push_str(&passes::emit_type(item, &cfg));
                out.push('\n');
            }
            "const" => {
                let p: Vec<_> = rest.split_whitespace().collect();
                let item = src.find_const(p[0], p[1]).unwrap_or_else(|| die(format!("lost anchor: const {} in {}", p[1], p[0])));
                out.push_str(&passes::emit_const(item, &cfg));
                out.push('\n');
            }
            "raw" => {
                // //@raw path Type::fn [+helpers] [as X] : verbatim function (attributes stripped)
                let p: Vec<_> = rest.split_whitespace().collect();
                out.push_str(&passes::emit_raw(&mut src, p[0], p[1], p.contains(&"+rw"), &cfg));
                out.push('\n');
            }
            "rawimpl" => {
                // //@rawimpl path Type [name,name..]: every fn of every inherent impl of Type
                let p: Vec<_> = rest.split_whitespace().collect();
                out.push_str(&passes::emit_rawimpl(&mut src, &p, &cfg));
                out.push('\n');
            }
            "rawitems" => {
                let p: Vec<_> = rest.split_whitespace().collect();
                out.push_str(&passes::emit_rawitems(&mut src, p[0], &p[1..], &cfg));
                out.push('\n');
            }
            "rawhelpers" => {
                // //@rawhelpers path a b c : free fns reachable from the given roots, not known to the template
                let p: Vec<_> = rest.split_whitespace().collect();
                out.push_str(&passes::emit_rawhelpers(&mut src, p[0], &p[1..], &cfg));
                out.push('\n');
            }
            "fn" => {
                let p: Vec<_> = rest.split_whitespace().collect();
                let mut f = FnDir { path: p[0].into(), spec_name: p[1].into(), ..Default::default() };
                let mut i = 2;
                while i < p.len() {
                    if p[i] == "as" {
                        f.as_name = Some(p[i + 1].into());
                        i += 2;
                    } else {
                        f.tags.push(p[i].into());
                        i += 1;
                    }
                }
                let mut cur: String = "spec".into();
                let mut arg = String::new();
                loop {
                    let Some(line) = lines.next() else { die(format!("template: unterminated //@fn {}", f.spec_name)) };
                    let l = line.trim();
                    if let Some(d) = l.strip_prefix("//@") {
                        let (c, r) = d.split_once(' ').unwrap_or((d, ""));
                        match c {
                            "end" => break,
                            "#" => {}
                            "ret" => f.ret = Some(r.into()),
                            "world" => f.world = Some(r.into()),
                            "attr" => {
                                f.attrs.push_str(r);
                                f.attrs.push('\n');
                            }
                            "sig" => f.sig = Some(r.into()),
                            "rw" | "macro" | "dropcall" => f.rules.add(c, r),
                            "option" => f.opts.extend(r.split_whitespace().map(|s| s.to_string())),
                            "at" => {
                                f.ats.push((r.to_string(), String::new()));
                                cur = "at".into();
                            }
                            "spec" | "entry" | "loop" | "loopinit" | "loopstart" | "loopend" | "after" | "before" => {
                                cur = c.into();
                                arg = r.into();
                                if c == "loop" {
                                    let (n, shape) = r.split_once(' ').unwrap_or((r, ""));
                                    f.loops.insert(n.parse().unwrap(), (shape.into(), String::new()));
                                }
                            }
                            _ => die(format!("template: unknown directive {c}")),
                        }
                        continue;
                    }
                    let n: usize = arg.split_whitespace().next().and_then(|s| s.parse().ok()).unwrap_or(0);
                    let tgt = match cur.as_str() {
                        "spec" => &mut f.spec,
                        "entry" => &mut f.entry,
                        "loop" => &mut f.loops.get_mut(&n).unwrap().1,
                        "loopstart" => f.loopstart.entry(n).or_default(),
                        "loopinit" => f.loopinit.entry(n).or_default(),
                        "loopend" => f.loopend.entry(n).or_default(),
                        "after" => f.after.entry(n).or_default(),
                        "before" => f.before.entry(n).or_default(),
                        "at" => &mut f.ats.last_mut().unwrap().1,
                        _ => unreachable!(),
                    };
                    tgt.push_str(line);
                    tgt.push('\n');
                }
                let start = out.lines().count() + 1;
                let (txt, info) = emit_fn(&mut src, &f, &cfg, vacuity);
                out.push_str(&txt);
                let end = out.lines().count();
                let mut info = info;
                info["start"] = start.into();
                info["end"] = end.into();
                fns.push(info);
            }
            _ => die(format!("template: unknown directive {cmd}")),
        }
    }
    let m = serde_json::json!({ "fns": fns, "files": src.used() });
    (out, m)
}

fn emit_fn(src: &mut Sources, f: &FnDir, ucfg: &UnitCfg, vacuity: bool) -> (String, serde_json::Value) {
    let Some(found) = src.find_fn(&f.path, &f.spec_name) else {
        die(format!("lost anchor: fn {} in {}", f.spec_name, f.path))
    };
    let mut cfg = ucfg.clone();
    let mut fr = f.rules.clone();
    fr.append(&cfg.rules);
    cfg.rules = fr;
    cfg.opts.extend(f.opts.iter().cloned());
    let line0 = found.sig.span().start().line;
    let line1 = found.block.span().end().line;
    let mut sig = found.sig.clone();
    let mut block = found.block.clone();
    let mut notes: BTreeSet<String> = BTreeSet::new();
    // a parameter that is a pattern is taken apart by a `let`
    for (i, a) in sig.inputs.iter_mut().enumerate().collect::<Vec<_>>().into_iter().rev() {
        if let FnArg::Typed(t) = a {
            if !matches!(&*t.pat, Pat::Ident(_) | Pat::Wild(_)) {
                let id = Ident::new(&format!("vx_p{i}"), proc_macro2::Span::call_site());
                let (pat, ty) = (t.pat.clone(), t.ty.clone());
                *t.pat = parse_quote!(#id);
                block.stmts.insert(0, parse_quote!(let #pat: #ty = #id;));
            }
        }
    }
    passes::run(src, &found, &mut sig, &mut block, &cfg, &mut notes);
    // markers
    let shapes = passes::mark(&mut block, &f.entry, f);
    let loops_ok = {
        // shape of the annotated loops must agree with what the template recorded
        let exp: Vec<String> = f.loops.values().map(|v| v.0.clone()).collect();
        exp.iter().enumerate().all(|(i, s)| s.is_empty() || shapes.get(i).map(|x| x == s).unwrap_or(false))
            && (f.loops.is_empty() && shapes.is_empty() || f.loops.len() == shapes.len())
    };
    let mut name = sig.ident.to_string();
    if let Some(n) = &f.as_name {
        name = n.clone();
        sig.ident = Ident::new(n, sig.ident.span());
    }
    // print
    let mut body = passes::fmt_fn(&block);
    let mut header = String::new();
    if let Some(s) = &f.sig {
        header.push_str(s);
    } else {
        let gens = &sig.generics;
        let (ig, _, wc) = gens.split_for_impl();
        let mut params: Vec<String> = sig.inputs.iter().map(|a| a.to_token_stream().to_string()).collect();
        if let Some(w) = &f.world {
            params.push(w.clone());
        }
        header.push_str(&format!("fn {}{}({})", sig.ident, ig.to_token_stream(), params.join(", ")));
        if let ReturnType::Type(_, t) = &sig.output {
            header.push_str(&format!(" -> ({}: {})", f.ret.clone().unwrap_or("ret".into()), t.to_token_stream()));
        }
        if let Some(wc) = wc {
            header.push_str(&format!(" {}", wc.to_token_stream()));
        }
    }
    // splice text
    // what is asked here is only whether the points can be reached
    let vaccut = f.attrs.contains("rlimit(");
    let spec = if vacuity && vaccut { f.spec.split("ensures").next().unwrap().to_string() } else { f.spec.clone() };
    let mut vac_points = 0;
    let mut vac = |tag: &str| {
        if vacuity {
            vac_points += 1;
            format!("\nproof {{ if vx_vac({vac_points}) {{ assert(false); /* {tag} */ }} }} // VACUITY {tag}\n")
        } else {
            String::new()
        }
    };
    let vac_entry = vac("entry");
    let entry = format!("{{ {}\n{}", vac_entry, f.entry);
    body = replace_marker(&body, "__vx_entry", 0, &entry, true);
    for (i, _) in shapes.iter().enumerate() {
        let inv = f.loops.get(&i).map(|x| x.1.clone()).unwrap_or_default();
        let st = f.loopstart.get(&i).cloned().unwrap_or_default();
        let v = vac(&format!("loop {i}"));
        body = replace_marker(&body, "__vx_inv", i, &format!("\n{inv}{{ {v}\n{st}"), true);
        let ini = f.loopinit.get(&i).cloned().unwrap_or_default();
        body = replace_marker(&body, "__vx_init", i, &ini, false);
        let mut en = f.loopend.get(&i).cloned().unwrap_or_default();
        if vacuity && vaccut {
            en.push_str("proof { assume(false); }\n"); // whether the invariants are kept is not in question here
        }
        body = replace_marker(&body, "__vx_loopend", i, &en, false);
        let af = f.after.get(&i).cloned().unwrap_or_default();
        body = replace_marker(&body, "__vx_after", i, &af, false);
        let be = f.before.get(&i).cloned().unwrap_or_default();
        body = replace_marker(&body, "__vx_before", i, &be, false);
    }
    for (i, (_, txt)) in f.ats.iter().enumerate() {
        body = replace_marker(&body, "__vx_at", i, txt, false);
    }
    if DROPPED.with(|d| d.borrow().iter().any(|d| *d == name)) {
        let txt = format!(
            "// ---- left out: {}:{}-{} {}\n{}\n#[verifier::external_body]\n{}\n{}{{ unimplemented!() }}\n",
            f.path, line0, line1, f.spec_name, f.attrs, header, f.spec
        );
        let info = serde_json::json!({
            "name": name, "source": f.spec_name, "file": f.path, "lines": [line0, line1], "tags": f.tags,
            "loops": [], "loops_ok": true, "notes": notes.into_iter().collect::<Vec<_>>(), "vac_points": 0, "dropped": true,
        });
        return (txt, info);
    }
    let txt = format!(
        "// ---- extracted from {}:{}-{} {}\n{}{}\n{}{}\n",
        f.path, line0, line1, f.spec_name, f.attrs, header, spec, body
    );
    let info = serde_json::json!({
        "name": name, "source": f.spec_name, "file": f.path, "lines": [line0, line1], "tags": f.tags,
        "loops": shapes, "loops_ok": loops_ok, "notes": notes.into_iter().collect::<Vec<_>>(),
        "vac_points": vac_points,
    });
    (txt, info)
}

/// Replaces marker `name!(i);` in formatted text; with `brace` also the `{` before it.
fn replace_marker(body: &str, name: &str, i: usize, with: &str, brace: bool) -> String {
    let m = format!("{name}!({i});");
    let Some(p) = body.find(&m) else { return body.to_string() };
    let mut start = p;
    if brace {
        start = body[..p].rfind('{').unwrap();
    }
    format!("{}{}{}", &body[..start], with, &body[p + m.len()..])
}
