//! C14, C15: message substitution and the translation catalogue against independent references.
use crate::vx::{Ctx, Rng};
use std::borrow::Cow;
use std::collections::BTreeMap;
use tinymist_l10n::*;

type Cat = BTreeMap<String, BTreeMap<String, String>>;

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
const NAMES: [&str; 9] = ["name", "a", "b", "ab", "path_1", "größe", "argument_one", "argument_two", "argument_twos"];

fn message(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(9) {
        match r.below(12) {
            0 | 1 | 2 => {
                s.push('{');
                s.push_str(*r.pick(&NAMES));
                s.push('}');
            }
            3 => {
                s.push('{');
                s.push_str(*r.pick(&NAMES));
            }
            4 => s.push_str(*r.pick(&["{}", "{x}", "{ a }", "{{a}}", "{a b}", "{A}"])),
            5 => s.push(*r.pick(&['{', '}'])),
            6 => s.push_str(*r.pick(&["é", "漢字", "😀", "\u{301}", "\n", "\\", "\"", "%s", "\r", "\t", "\u{85}", "\u{2028}", "\u{a0}", " = ", " #", "ẞ", "=", "[x]"])),
            7 => s.push_str(*r.pick(&NAMES)),
            _ => s.push(*r.pick(&['x', ' ', '.', ':', 'a', 'b'])),
        }
    }
    s
}
/// what a message must become
fn expected(m: &str, args: &[(&'static str, String)]) -> String {
    let c: Vec<char> = m.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '{' {
            if let Some(k) = (i + 1..c.len()).find(|k| c[*k] == '}') {
                let name: String = c[i + 1..k].iter().collect();
                if let Some((_, v)) = args.iter().find(|(n, _)| *n == name) {
                    o.push_str(v);
                    i = k + 1;
                    continue;
                }
            }
        }
        o.push(c[i]);
        i += 1;
    }
    o
}
enum V {
    S(String),
    I(i64),
    F(f64),
}
fn args(r: &mut Rng) -> Vec<(&'static str, V)> {
    let mut v = vec![];
    let from = r.below(NAMES.len());
    for k in 0..r.below(NAMES.len() + 1) {
        let n = NAMES[(from + k) % NAMES.len()];
        let x = match r.below(4) {
            0 => V::I(*r.pick(&[0, -1, 7, i64::MIN, i64::MAX, 1234567])),
            1 if r.chance(1, 2) => V::F(f64::from_bits(r.next())),
            1 => V::F(*r.pick(&[0.0, -0.0, -0.5, 1.0, 1e300, 3.25, 0.1, 1.0 / 3.0, 1234.56789, 1e-7, 9007199254740993.0, f64::NAN, f64::INFINITY, f64::MIN_POSITIVE, f64::MAX])),
            _ => V::S(message(r)),
        };
        v.push((n, x));
    }
    v
}

pub fn substitution(cx: &mut Ctx) {
    cx.rule = "random messages of placeholders, braces and Unicode text, with and without a translation table, against a reference formatter".into();
    // the built-in messages first: the table can be set once per process
    let mut table: BTreeMap<String, String> = BTreeMap::new();
    let mut tables: Vec<BTreeMap<String, String>> = vec![];
    let mut at = "none";
    let rounds = if cx.thorough { 400_000 } else { 20_000 };
    let mut n = 0;
    while cx.more(n, 2 * rounds, 2 * rounds) {
        if n == rounds {
            let mut r = Rng(cx.rng.next());
            for k in 0..rounds / 4 {
                table.insert(format!("k{}", k * 2), message(&mut r));
            }
            let mut set = TranslationMapSet::default();
            set.insert("zz".into(), table.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
            // one with fewer keys and one with a region
            let other: BTreeMap<String, String> = table.iter().enumerate().filter(|(i, _)| i % 3 > 0).map(|(_, (k, v))| (k.clone(), format!("{{a}} {v}"))).collect();
            let third: BTreeMap<String, String> = (0..rounds / 8).map(|k| (format!("k{}", k * 3), message(&mut r))).collect();
            set.insert("xx".into(), other.clone().into_iter().collect());
            set.insert("pt-br".into(), third.clone().into_iter().collect());
            tables = vec![table.clone(), other, third];
            set_translations(set);
            table.clear();
        }
        n += 1;
        let mut r = Rng(cx.rng.next());
        if n > rounds && (n - rounds) % 97 == 1 {
            // the table of the language asked for, whatever was in use before
            let (lang, t) = *r.pick(&[("zz", 0), ("ZZ", 0), ("zz-AA", 0), ("xx", 1), ("xx-Hant-x", 1), ("Xx", 1), ("pt-br", 2), ("PT-BR", 2)]);
            if cx.guard("set_locale", lang, || set_locale(lang)).flatten().is_none() {
                cx.fail("set_locale", lang, "the table of the language", "None");
                return;
            }
            table = tables[t].clone();
            at = lang;
        }
        let key = leak(format!("k{}", r.below(rounds as usize / 2)));
        let msg = leak(message(&mut r));
        let a = args(&mut r);
        let texts: Vec<(&'static str, String)> = a
            .iter()
            .map(|(n, v)| (*n, match v { V::S(s) => s.clone(), V::I(i) => format!("{i}"), V::F(f) => format!("{f}") }))
            .collect();
        let show = format!("locale={at} key={key:?} message={msg:?} translated={:?} args={texts:?}", table.get(key));
        cx.case(&show);
        let m = table.get(key).map(|s| s.as_str()).unwrap_or(msg);
        let real: Vec<(&'static str, Arg)> = a
            .iter()
            .map(|(n, v)| (*n, match v { V::S(s) => Arg::Str(Cow::Borrowed(s.as_str())), V::I(i) => Arg::Int(*i), V::F(f) => Arg::Float(*f) }))
            .collect();
        let Some(got) = cx.guard("t_with_args", &show, || t_with_args(key, msg, &real).into_owned()) else { return };
        let want = expected(m, &texts);
        if got != want {
            cx.fail("t_with_args", &show, &format!("{want:?}"), &format!("{got:?}"));
            return;
        }
        let plain = t_without_args(key, msg);
        if plain != m {
            cx.fail("t_without_args", &show, &format!("{m:?}"), &format!("{plain:?}"));
            return;
        }
        cx.eval(if m.contains('{') { &show } else { "" });
    }
    // the macro hands over name and value of every argument
    let got = t!("no-such-key", "{a}-{b}!{c}", a = Arg::Int(1), b = "x".into(), c = vec![1].debug_l10n());
    if got != "1-x![1]" {
        cx.fail("t!", "{a}-{b}!{c}", "1-x![1]", &got);
    }
}

fn word(r: &mut Rng, wild: &[&str]) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 5) {
        if r.chance(1, 3) {
            s.push_str(*r.pick(wild));
        } else {
            s.push(*r.pick(&['a', 'b', 'c', '-', '.', '_', '9', 'A', 'a', 'B']));
        }
    }
    s
}
fn catalogue(r: &mut Rng) -> Cat {
    let mut c = Cat::new();
    for _ in 0..r.below(6) {
        let key = word(r, &["é", "]", "[", "#", " ", "=", "漢", "\""]);
        let mut m = BTreeMap::new();
        m.insert("en".to_owned(), value(r));
        for _ in 0..r.below(5) {
            let lang = word(r, &["é", "]", "漢", "\"", "EN"]);
            m.insert(lang, value(r));
        }
        // and names that differ in little
        if r.chance(1, 6) {
            let near = r.pick(&[key.to_lowercase(), key.to_uppercase(), format!("{key}."), key.replace('.', "_")]).clone();
            c.insert(near, m.clone());
        }
        c.insert(key, m);
    }
    c
}
/// a text as the tool stores it: mostly a JSON string, sometimes bare
fn value(r: &mut Rng) -> String {
    if r.chance(3, 4) {
        serde_json::to_string(&message(r)).unwrap()
    } else {
        word(r, &["=", "#", "[", "]", "é", " = ", "{a}", "\\n", "\"", "\\"]).trim_start_matches('"').trim().to_owned()
    }
}
fn real(c: &Cat) -> TranslationMapSet {
    c.iter().map(|(k, v)| (k.clone(), v.iter().map(|(a, b)| (a.clone(), b.clone())).collect())).collect()
}
fn back(c: &TranslationMapSet) -> Cat {
    c.iter().map(|(k, v)| (k.clone(), v.iter().map(|(a, b)| (a.clone(), b.clone())).collect())).collect()
}

pub fn catalogues(cx: &mut Ctx) {
    cx.rule = "random catalogues through update, write, read and the file on disk, against a reference map".into();
    let mut n = 0;
    let file = cx.dir.join("catalogue.toml");
    while cx.more(n, 15000, 500000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let c = catalogue(&mut r);
        let show = format!("{c:?}");
        cx.case(&show);
        let Some(text) = cx.guard("serialize_translations", &show, || serialize_translations(real(&c))) else { return };
        let Some(read) = cx.guard("deserialize", &text, || deserialize(&text, true)) else { return };
        match read {
            Ok(m) if back(&m) == c => {}
            o => {
                cx.fail("write then read", &format!("{show} text={text:?}"), &show, &format!("{:?}", o.map(|m| back(&m)).map_err(|e| e.to_string())));
                return;
            }
        }
        // by language, decoded
        let mut by: Cat = Cat::new();
        for (k, m) in &c {
            for (l, v) in m {
                let v = if v.starts_with('"') { serde_json::from_str::<String>(v).unwrap_or_default() } else { v.clone() };
                by.entry(l.clone()).or_default().insert(k.clone(), v);
            }
        }
        if c.values().flat_map(|m| m.values()).all(|v| !v.starts_with('"') || serde_json::from_str::<String>(v).is_ok()) {
            let Some(l) = cx.guard("load_translations", &text, || load_translations(&text)) else { return };
            match l {
                Ok(m) if back(&m) == by => {}
                o => {
                    cx.fail("load_translations", &format!("{show} text={text:?}"), &format!("{by:?}"), &format!("{:?}", o.map(|m| back(&m)).map_err(|e| e.to_string())));
                    return;
                }
            }
        }
        // update
        let mut used: BTreeMap<String, String> = BTreeMap::new();
        for k in c.keys() {
            if r.chance(2, 3) {
                used.insert(k.clone(), value(&mut r));
            }
        }
        for _ in 0..r.below(3) {
            used.insert(word(&mut r, &["é", "]", "=", "#"]), value(&mut r));
        }
        // entries may lack the English text
        let mut c = c;
        let mut text = text;
        if r.chance(1, 3) {
            for m in c.values_mut() {
                if r.chance(1, 2) {
                    m.remove("en");
                }
            }
            let nl = *r.pick(&["\n", "\n", "\r\n", "\n\n", " \n# note = x\n"]);
            text = String::new();
            for (k, m) in &c {
                text.push_str(&format!("[{k}]{nl}"));
                for (l, v) in m.iter().rev() {
                    text.push_str(&format!("{l}{}{v}{nl}", *r.pick(&[" = ", "=", "  =\t"])));
                }
            }
            // (an entry without any text is not in the file)
            c.retain(|_, m| !m.is_empty());
        }
        let mut want = c.clone();
        want.retain(|k, _| used.contains_key(k));
        for (k, v) in &used {
            want.entry(k.clone()).or_default().insert("en".into(), v.clone());
        }
        let mut kv: Vec<(String, String)> = used.clone().into_iter().collect();
        for i in (1..kv.len()).rev() {
            kv.swap(i, r.below(i + 1));
        }
        let show = format!("catalogue={c:?} used={used:?}");
        let mut m = real(&c);
        if cx.guard("update_translations", &show, || update_translations(kv.clone(), &mut m)).is_none() {
            return;
        }
        if back(&m) != want {
            cx.fail("update_translations", &show, &format!("{want:?}"), &format!("{:?}", back(&m)));
            return;
        }
        if n % 8 == 0 {
            let _ = std::fs::remove_file(&file);
            let fresh = r.chance(1, 5);
            let broken = !fresh && r.chance(1, 4);
            let bytes = broken && r.chance(1, 2);
            if fresh {
                want = used.iter().map(|(k, v)| (k.clone(), [("en".to_owned(), v.clone())].into())).collect();
            } else {
                let mut t = if broken && !bytes { format!("{text}\nno equal sign\n") } else { text.clone() }.into_bytes();
                if bytes {
                    t.extend(b"\n[k]\nen = \xff\n");
                }
                std::fs::write(&file, t).unwrap();
            }
            let show = format!("{show} fresh={fresh} broken={broken}");
            let before = std::fs::read(&file).ok();
            let Some(o) = cx.guard("update_disk_translations", &show, || update_disk_translations(kv, &file)) else { return };
            let after = std::fs::read(&file).ok();
            if broken {
                if o.is_ok() || before != after {
                    cx.fail("update of an unreadable catalogue", &show, "an error, file untouched", &format!("ok={} changed={}", o.is_ok(), before != after));
                    return;
                }
            } else {
                let got = after.and_then(|b| String::from_utf8(b).ok()).and_then(|t| deserialize(&t, true).ok()).map(|m| back(&m));
                if o.is_err() || got.as_ref() != Some(&want) {
                    cx.fail("update_disk_translations", &show, &format!("{want:?}"), &format!("{got:?}"));
                    return;
                }
            }
        }
        cx.eval(if c.is_empty() { "" } else { &show });
    }
}
