//@include ../lift/common.rs
// C22: page ranges: texts against a grammar, ranges through print and parse.
use core::fmt;
use std::num::NonZeroUsize;
use std::ops::RangeInclusive;
use std::str::FromStr;
use vx::{Ctx, Rng};
//@rawitems crates/tinymist-task/src/primitives.rs Pages -impl:Serialize -impl:Deserialize

/// a page number: digits, maybe a plus, at least one
fn num(s: &str) -> Option<usize> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: usize = 0;
    for b in d.bytes() {
        v = v.checked_mul(10)?.checked_add((b - b'0') as usize)?;
    }
    (v > 0).then_some(v)
}
fn meaning(s: &str) -> Option<(Option<usize>, Option<usize>)> {
    let Some(at) = s.find('-') else {
        let n = num(s.trim())?;
        return Some((Some(n), Some(n)));
    };
    let (a, b) = (s[..at].trim(), s[at + 1..].trim());
    if b.contains('-') || a.is_empty() && b.is_empty() {
        return None;
    }
    let one = |t: &str| if t.is_empty() { Some(None) } else { num(t).map(Some) };
    let (a, b) = (one(a)?, one(b)?);
    if let (Some(x), Some(y)) = (a, b) {
        if x > y {
            return None;
        }
    }
    Some((a, b))
}
fn page(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => usize::MAX - r.below(2),
        1 => (r.next() >> r.below(64)) as usize | 1,
        2 => 10usize.pow(r.below(19) as u32),
        _ => r.range(1, 12),
    }
}
fn text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(7) {
        s += *r.pick(&["-", "-", "0", "1", "2", "10", "9", " ", "+", "\t", "x", "", "18446744073709551615", "18446744073709551616", "\u{a0}", "é", ","]);
    }
    s
}
fn main() {
    let mut cx = Ctx::new();
    cx.rule = "random and near-valid texts against the grammar of page ranges; random valid ranges through print and parse".into();
    let mut n = 0;
    while cx.more(n, 60000, 3000000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        if r.chance(1, 2) {
            let t = text(&mut r);
            let show = format!("parse {t:?}");
            cx.case(&show);
            let Some(got) = cx.guard("from_str", &show, || Pages::from_str(&t)) else { break };
            let seen = got.as_ref().ok().map(|p| (p.0.start().map(|x| x.get()), p.0.end().map(|x| x.get())));
            if seen != meaning(&t) {
                cx.fail("what the text means", &show, &format!("{:?}", meaning(&t)), &format!("{got:?}"));
                break;
            }
            cx.eval(&show);
        } else {
            let (a, b) = (page(&mut r), page(&mut r));
            let (a, b) = match r.below(4) {
                0 => (Some(a), None),
                1 => (None, Some(b)),
                2 => (Some(a), Some(a)),
                _ => (Some(a.min(b)), Some(a.max(b))),
            };
            let show = format!("print {a:?}..={b:?}");
            cx.case(&show);
            let nz = |x: Option<usize>| x.and_then(NonZeroUsize::new);
            let p = Pages(nz(a)..=nz(b));
            let Some((t, back)) = cx.guard("print and parse", &show, || {
                let t = p.to_string();
                let b = Pages::from_str(&t);
                (t, b)
            }) else { break };
            if back.as_ref().ok() != Some(&p) {
                cx.fail("a printed range parses back", &show, &show, &format!("{t:?} parsed as {back:?}"));
                break;
            }
            cx.eval(&show);
        }
    }
    cx.finish()
}
