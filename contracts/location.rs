// Unit: editor positions and byte offsets (C21).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@include location_core.rs
/// a place of the document outside its line breaks
spec fn visible(t: Seq<char>, i: int) -> bool { 0 <= i <= t.len() && exists|l: int| #[trigger] in_line(t, i, l) && i <= line_end(t, l) }
proof fn there(t: Seq<char>, i: int, e: PositionEncoding, p: LspPosition, r: Option<usize>)
    requires visible(t, i), small(t), shown(t, i, e, p), means(t, p, e, r)
    ensures r == Some(off8(t, i) as usize)
{
    let l = choose|l: int| #[trigger] in_line(t, i, l) && i <= line_end(t, l);
    let m = p.line as int;
    lines_ok(t);
    if l < m { assert(lines(t)[l + 1] <= lines(t)[m]); } else if m < l { assert(lines(t)[m + 1] <= lines(t)[l]); }
    reveal(means); line_facts(t, l); offsets(t);
}
/// a place sent to the client and back is the same place
fn back(s: &Source, b: usize, e: PositionEncoding) -> (r: Option<usize>)
    requires small(s.text_()), exists|i: int| visible(s.text_(), i) && b == #[trigger] off8(s.text_(), i)
    ensures r == Some(b)
{
    let p = to_lsp_position(b, e, s);
    proof { offsets(s.text_()); }
    let r = to_typst_position(p, e, s);
    proof { let i = choose|i: int| visible(s.text_(), i) && b == #[trigger] off8(s.text_(), i); there(s.text_(), i, e, p, r); }
    r
}
/// so is a range
fn back_range(s: &Source, a: usize, b: usize, e: PositionEncoding) -> (r: Option<Range<usize>>)
    requires small(s.text_()), exists|i: int| visible(s.text_(), i) && a == #[trigger] off8(s.text_(), i), exists|i: int| visible(s.text_(), i) && b == #[trigger] off8(s.text_(), i)
    ensures r is Some, (r->0).start == a, (r->0).end == b
{
    proof { offsets(s.text_()); }
    let p = to_lsp_range(Range { start: a, end: b }, s, e);
    let r = to_typst_range(p, e, s);
    proof {
        let i = choose|i: int| visible(s.text_(), i) && a == #[trigger] off8(s.text_(), i); let j = choose|i: int| visible(s.text_(), i) && b == #[trigger] off8(s.text_(), i);
        assert forall|r: Option<usize>| #[trigger] means(s.text_(), p.start, e, r) implies r == Some(a) by { there(s.text_(), i, e, p.start, r); }
        assert forall|r: Option<usize>| #[trigger] means(s.text_(), p.end, e, r) implies r == Some(b) by { there(s.text_(), j, e, p.end, r); }
    }
    r
}
}
fn main() {}
