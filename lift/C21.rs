//@include ../lift/common.rs
//@include ../lift/source.rs
// C21: editor positions and byte offsets, against a reading of the text line by line.
use std::cmp::Ordering;
use vx::{Ctx, Rng};
macro_rules! vx_log { ($($t:tt)*) => {{ let _ = format!($($t)*); }} }
#[allow(unused_imports)]
mod log {
    pub(crate) use {vx_log as trace, vx_log as debug, vx_log as info, vx_log as warn, vx_log as error};
}
//@rawitems crates/tinymist-analysis/src/location.rs to_typst_position to_lsp_position to_typst_range to_lsp_range PositionEncoding -LspPosition -LspRange -impl:From

fn text(r: &mut Rng) -> String {
    let bits = ["a", "b", "é", "字", "😀", "\n", "\r\n", "\r", "\n\n", "\u{2028}", "\x0B", "\u{85}", " ", "xyz", "\u{feff}", "=", "\u{10ffff}", "\u{7ff}", "\u{800}", "\n\r"];
    let mut s = String::new();
    for _ in 0..r.below(12) {
        s += *r.pick(&bits);
    }
    s
}
/// (start, end of the visible part) of each line
fn lines(t: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let (mut a, mut i) = (0, 0);
    let b = t.as_bytes();
    while i < b.len() {
        let c = t[i..].chars().next().unwrap();
        let mut n = i + c.len_utf8();
        if is_newline(c) {
            if c == '\r' && b.get(n) == Some(&b'\n') {
                n += 1;
            }
            v.push((a, i));
            a = n;
        }
        i = n;
    }
    v.push((a, t.len()));
    v
}
fn units(t: &str, e: PositionEncoding) -> usize {
    match e {
        PositionEncoding::Utf8 => t.len(),
        PositionEncoding::Utf16 => t.encode_utf16().count(),
    }
}
fn main() {
    let mut cx = Ctx::new();
    cx.rule = "texts of multi-byte characters and every line break: every offset to a position and back, positions in and around every line, ranges".into();
    let mut n = 0;
    while cx.more(n, 6000, 300000) {
        n += 1;
        let mut r = cx.rng.clone();
        cx.rng.next();
        let t = text(&mut r);
        let s = Source::detached(t.clone());
        let ls = lines(&t);
        for e in [PositionEncoding::Utf16, PositionEncoding::Utf8] {
            let key = format!("text {t:?}, {e:?}");
            cx.case(&key);
            // offsets
            let mut offs: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
            offs.dedup();
            for &o in &offs {
                let l = ls.iter().rposition(|x| x.0 <= o).unwrap();
                let want = LspPosition::new(l as u32, units(&t[ls[l].0..o], e) as u32);
                let input = format!("{key}, offset {o}");
                let Some(p) = cx.guard("to_lsp_position", &input, || to_lsp_position(o, e, &s)) else { return cx.finish() };
                if p != want {
                    cx.fail("position of an offset", &input, &format!("{want:?}"), &format!("{p:?}"));
                }
                if o <= ls[l].1 {
                    let Some(back) = cx.guard("to_typst_position", &input, || to_typst_position(p, e, &s)) else { return cx.finish() };
                    if back != Some(o) {
                        cx.fail("an offset sent to the client and back", &input, &format!("{:?}", Some(o)), &format!("{back:?} through {p:?}"));
                    }
                }
            }
            let beyond = t.len() + 1 + r.below(4);
            let input = format!("{key}, offset {beyond}");
            let Some(p) = cx.guard("to_lsp_position", &input, || to_lsp_position(beyond, e, &s)) else { return cx.finish() };
            if p != LspPosition::new(ls.len() as u32, 0) {
                cx.fail("position of an offset past the end", &input, &format!("line {} column 0", ls.len()), &format!("{p:?}"));
            }
            // positions
            let mut want_range = vec![];
            for l in 0..ls.len() + 3 {
                let width = ls.get(l).map_or(2, |x| units(&t[x.0..x.1], e));
                let l = if l == ls.len() + 2 { u32::MAX - r.below(3) as u32 } else { l as u32 };
                let far = [u32::MAX, u32::MAX - 1, width as u32 + 50][r.below(3)];
                for c in (0..width as u32 + 5).chain([far]) {
                    let p = LspPosition::new(l, c);
                    let input = format!("{key}, {p:?}");
                    let Some(got) = cx.guard("to_typst_position", &input, || to_typst_position(p, e, &s)) else { return cx.finish() };
                    let ok: Vec<Option<usize>> = match ls.get(l as usize) {
                        None => vec![Some(t.len())],
                        Some(&(a, b)) if c as usize >= width => {
                            let _ = a;
                            vec![Some(b)]
                        }
                        Some(&(a, b)) => match offs.iter().find(|o| (a..=b).contains(*o) && units(&t[a..**o], e) == c as usize) {
                            Some(o) => vec![Some(*o)],
                            // within a character: nothing, or a place in the line
                            None => offs.iter().filter(|o| (a..=b).contains(*o)).map(|o| Some(*o)).chain([None]).collect(),
                        },
                    };
                    if !ok.contains(&got) {
                        cx.fail("offset of a position", &input, &format!("{ok:?}"), &format!("{got:?}"));
                    }
                    want_range.push((p, got));
                }
            }
            // ranges
            for _ in 0..4 {
                let (a, b) = (*r.pick(&want_range), *r.pick(&want_range));
                let input = format!("{key}, {:?} to {:?}", a.0, b.0);
                let Some(got) = cx.guard("to_typst_range", &input, || to_typst_range(LspRange::new(a.0, b.0), e, &s)) else { return cx.finish() };
                let want = a.1.zip(b.1).map(|(x, y)| x..y);
                if got != want {
                    cx.fail("range of positions", &input, &format!("{want:?}"), &format!("{got:?}"));
                }
                let (x, y) = (*r.pick(&offs), *r.pick(&offs));
                let input = format!("{key}, {x}..{y}");
                let Some(got) = cx.guard("to_lsp_range", &input, || to_lsp_range(x..y, &s, e)) else { return cx.finish() };
                let want = LspRange::new(to_lsp_position(x, e, &s), to_lsp_position(y, e, &s));
                if got != want {
                    cx.fail("range of offsets", &input, &format!("{want:?}"), &format!("{got:?}"));
                }
            }
            cx.eval(&key);
            if cx.failed() {
                break;
            }
        }
    }
    cx.finish()
}
