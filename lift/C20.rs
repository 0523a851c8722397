//@include ../lift/common.rs
// C20: token deltas over pairs of token arrays, applied the way clients apply them.
use vx::{Ctx, Rng};
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct SemanticToken { pub delta_line: u32, pub delta_start: u32, pub length: u32, pub token_type: u32, pub token_modifiers_bitset: u32 }
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct SemanticTokensEdit { pub start: u32, pub delete_count: u32, pub data: Option<Vec<SemanticToken>> }
//@rawitems crates/tinymist-query/src/semantic_tokens_delta.rs token_delta

fn flat(t: &[SemanticToken]) -> Vec<u32> {
    t.iter().flat_map(|t| [t.delta_line, t.delta_start, t.length, t.token_type, t.token_modifiers_bitset]).collect()
}
fn tok(r: &mut Rng, kinds: usize) -> SemanticToken {
    let mut t = SemanticToken { delta_line: 0, delta_start: 1, length: r.below(kinds) as u32, token_type: 1, token_modifiers_bitset: 0 };
    if r.chance(1, 8) {
        match r.below(4) {
            0 => t.delta_line = 1,
            1 => t.delta_start = 2,
            2 => t.token_type = 2,
            _ => t.token_modifiers_bitset = 1,
        }
    }
    t
}
fn main() {
    let mut cx = Ctx::new();
    cx.rule = "random pairs of token arrays sharing a prefix, a suffix and repeated tokens; the edits are applied to the previous numbers".into();
    let mut n = 0;
    while cx.more(n, 40000, 2000000) {
        n += 1;
        let mut r = Rng(cx.rng.next());
        let kinds = r.range(1, 3);
        let some = |r: &mut Rng, m: usize| (0..r.below(m)).map(|_| tok(r, kinds)).collect::<Vec<_>>();
        let (pre, suf) = (some(&mut r, 5), some(&mut r, 5));
        let (a, b) = (some(&mut r, 4), some(&mut r, 4));
        let from = [&pre[..], &a, &suf].concat();
        let to = [&pre[..], if r.chance(1, 6) { &a } else { &b }, &suf].concat();
        let short = |t: &[SemanticToken]| t.iter().map(|t| format!("{}.{}.{}.{}.{}", t.delta_line, t.delta_start, t.length, t.token_type, t.token_modifiers_bitset)).collect::<Vec<_>>().join(" ");
        let show = format!("from [{}] to [{}]", short(&from), short(&to));
        cx.case(&show);
        let Some(es) = cx.guard("token_delta", &show, || token_delta(&from, &to)) else { break };
        let mut cur = flat(&from);
        let want = flat(&to);
        let mut end = cur.len();
        for e in es.iter().rev() {
            let (s, d) = (e.start as usize, e.delete_count as usize);
            if s + d > end {
                cx.fail("edits stay inside the previous array, in order", &show, &format!("at most {end}"), &format!("{s}+{d}"));
                break;
            }
            cur.splice(s..s + d, flat(e.data.as_deref().unwrap_or(&[])));
            end = s;
        }
        if cx.failed() {
            break;
        }
        if cur != want {
            cx.fail("the edited array is the new one", &show, &format!("{want:?}"), &format!("{cur:?} by {es:?}"));
            break;
        }
        if from == to && !es.is_empty() {
            cx.fail("identical arrays give no edit", &show, "[]", &format!("{es:?}"));
            break;
        }
        cx.eval(&show);
    }
    cx.finish()
}
