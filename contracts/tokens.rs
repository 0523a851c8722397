// Unit: semantic token deltas (C20).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@option chains
//@rw expr $x.iter() => vx_iter($x)
//@rw expr $x.into_iter().rev() => vx_rev(vx_into_iter($x))
//@rw expr $x.rev() => vx_rev($x)
//@rw expr $x.zip($y) => vx_zip($x, vx_into_iter($y))
//@rw expr $x.split_at($n) => vx_split_at($x, $n)
//@rw expr $x.into() => vx_to_vec($x)
//@rw expr $x.to_vec() => vx_to_vec($x)
//@rw expr $x == $y => vx_eq(&$x, &$y)
//@rw expr $x != $y => !vx_eq(&$x, &$y)
//@rw expr &$x[..$n] => vx_split_at($x, $n).0
//@rw expr &$x[$n..] => vx_split_at($x, $n).1
use vstd::prelude::*;
verus! {
uninterp spec fn vx_vac(k: int) -> bool;
fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
fn vx_panic<T>() -> T requires false { unimplemented!() }
/// lsp_types: one token, five numbers on the wire
struct SemanticToken { delta_line: u32, delta_start: u32, length: u32, token_type: u32, token_modifiers_bitset: u32 }
struct SemanticTokensEdit { start: u32, delete_count: u32, data: Option<Vec<SemanticToken>> }
/// `==`, also through references
trait VxEq: Sized {
    spec fn same(&self, o: &Self) -> bool;
    fn vx_same(&self, o: &Self) -> (r: bool) ensures r == self.same(o);
}
impl VxEq for SemanticToken {
    spec fn same(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body]
    fn vx_same(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl VxEq for usize {
    spec fn same(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body]
    fn vx_same(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl VxEq for u32 {
    spec fn same(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body]
    fn vx_same(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl<'a, T: VxEq> VxEq for &'a T {
    spec fn same(&self, o: &Self) -> bool { (**self).same(*o) }
    #[verifier::external_body]
    fn vx_same(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
fn vx_eq<T: VxEq>(a: &T, b: &T) -> (r: bool) ensures r == a.same(b) { unimplemented!() }
//@include coll.rs
#[verifier::external_body]
fn vx_iter<'a, T>(s: &'a [T]) -> (r: VxIt<&'a T>)
    ensures r.pos() == 0, r.all().len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> *(#[trigger] r.all()[i]) == s@[i] { unimplemented!() }
#[verifier::external_body]
fn vx_rev<T>(s: VxIt<T>) -> (r: VxIt<T>)
    requires s.pos() == 0
    ensures r.pos() == 0, r.all().len() == s.all().len(), forall|i: int| 0 <= i < s.all().len() ==> #[trigger] r.all()[i] == s.all()[s.all().len() - 1 - i] { unimplemented!() }
#[verifier::external_body]
fn vx_zip<T, U>(a: VxIt<T>, b: VxIt<U>) -> (r: VxIt<(T, U)>)
    requires a.pos() == 0, b.pos() == 0
    ensures r.pos() == 0, r.all().len() == (if a.all().len() <= b.all().len() { a.all().len() } else { b.all().len() }),
        forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]) == (a.all()[i], b.all()[i]) { unimplemented!() }
#[verifier::external_body]
fn vx_split_at<T>(s: &[T], n: usize) -> (r: (&[T], &[T]))
    requires n <= s@.len()
    ensures r.0@ == s@.take(n as int), r.1@ == s@.skip(n as int) { unimplemented!() }
/// the tokens, each copied (Copy)
#[verifier::external_body]
fn vx_to_vec<T>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { unimplemented!() }

/// edits address numbers, five to a token, in the previous array; they are in order and do not overlap
spec fn fits(es: Seq<SemanticTokensEdit>, n: int) -> bool decreases es.len() {
    es.len() > 0 ==> {
        let e = es.last();
        e.start % 5 == 0 && e.delete_count % 5 == 0 && e.start + e.delete_count <= 5 * n && fits(es.drop_last(), e.start as int / 5)
    }
}
spec fn inserted(e: SemanticTokensEdit) -> Seq<SemanticToken> { match e.data { Some(v) => v@, None => Seq::empty() } }
/// what the client has after applying the edits
spec fn applied(from: Seq<SemanticToken>, es: Seq<SemanticTokensEdit>) -> Seq<SemanticToken> decreases es.len() {
    if es.len() == 0 { from } else {
        let e = es.last();
        applied(from.take(e.start as int / 5) + inserted(e) + from.skip((e.start + e.delete_count) as int / 5), es.drop_last())
    }
}
//@fn crates/tinymist-query/src/semantic_tokens_delta.rs token_delta C20
//@ret r
    requires from@.len() * 5 <= u32::MAX, to@.len() * 5 <= u32::MAX
    ensures fits(r@, from@.len() as int), applied(from@, r@) =~= to@,
        from@ == to@ ==> r@.len() == 0,
//@entry
    let ghost from0 = from@; let ghost to0 = to@;
    proof { reveal_with_fuel(fits, 3); reveal_with_fuel(applied, 3); }
//@loop 0 for
    invariant_except_break vx_out0 == vx_it0.pos()
    invariant 0 <= vx_it0.pos() <= vx_it0.all().len(), vx_out0 <= vx_it0.pos(), from@ == from0, to@ == to0,
        vx_it0.all().len() <= from0.len(), vx_it0.all().len() <= to0.len(),
        vx_it0.all().len() == from0.len() || vx_it0.all().len() == to0.len(),
        forall|i: int| 0 <= i < vx_it0.all().len() ==> *(#[trigger] vx_it0.all()[i]).0 == from0[i] && *vx_it0.all()[i].1 == to0[i],
        forall|i: int| 0 <= i < vx_out0 ==> #[trigger] from0[i] == to0[i],
        from0.len() * 5 <= u32::MAX,
    ensures vx_out0 <= from0.len(), vx_out0 <= to0.len(), forall|i: int| 0 <= i < vx_out0 ==> #[trigger] from0[i] == to0[i], from@ == from0, to@ == to0,
        vx_out0 == from0.len() || vx_out0 == to0.len() || from0[vx_out0 as int] != to0[vx_out0 as int],
    decreases vx_it0.all().len() - vx_it0.pos()
//@loop 1 for
    invariant_except_break vx_out1 == vx_it1.pos()
    invariant 0 <= vx_it1.pos() <= vx_it1.all().len(), vx_out1 <= vx_it1.pos(), from@ == from0.skip(start as int), to@ == to0.skip(start as int),
        start <= from0.len(), start <= to0.len(),
        vx_it1.all().len() <= from@.len(), vx_it1.all().len() <= to@.len(),
        forall|i: int| 0 <= i < vx_it1.all().len() ==> *(#[trigger] vx_it1.all()[i]).0 == from0[from0.len() - 1 - i] && *vx_it1.all()[i].1 == to0[to0.len() - 1 - i],
        forall|i: int| 0 <= i < vx_out1 ==> #[trigger] from0[from0.len() - 1 - i] == to0[to0.len() - 1 - i],
        from0.len() * 5 <= u32::MAX,
    ensures vx_out1 <= from0.len() - start, vx_out1 <= to0.len() - start,
        forall|i: int| 0 <= i < vx_out1 ==> #[trigger] from0[from0.len() - 1 - i] == to0[to0.len() - 1 - i], from@ == from0.skip(start as int), to@ == to0.skip(start as int),
    decreases vx_it1.all().len() - vx_it1.pos()
//@after 1
    proof {
        let s = start as int; let (a, b) = (from0.len() - vx_out1, to0.len() - vx_out1);
        assert forall|i: int| a <= i < from0.len() implies from0[i] == to0[i - a + b] by { let k = from0.len() - 1 - i; assert(from0[from0.len() - 1 - k] == to0[to0.len() - 1 - k]); }
        assert(from0.take(s) =~= to0.take(s));
        assert(from0.skip(a) =~= to0.skip(b));
        assert(to0.take(s) + to0.subrange(s, b) + to0.skip(b) =~= to0);
        assert(to0.skip(s).take(b - s) =~= to0.subrange(s, b));
        assert(a == s && b == s ==> from0 =~= to0);
    }
//@end
}
fn main() {}
