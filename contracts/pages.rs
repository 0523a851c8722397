// Unit: page ranges (C22).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@option chains slice_match fmt_concat
//@rw type fmt::Formatter<$l> => VxFmt
//@rw type fmt::Result => Result<(), FmtErr>
//@rw type RangeInclusive<$t> => VxRange
//@rw type NonZeroUsize => Nz
//@rw type Self::Err => &'static str
//@rw type String => VString
//@rw expr str::trim($x) => vx_trim($x)
//@rw expr $x.trim() => vx_trim($x)
//@rw expr $x.split($c) => vx_split($x, $c)
//@rw expr $x.split_once($c) => vx_split_once($x, $c)
//@rw expr $x.as_slice() => $x
//@rw expr $x.to_string() => vx_disp($x)
//@rw expr String::from($x) => vx_flit($x)
//@rw expr String::new() => vx_flit("")
//@rw expr NonZeroUsize::from_str($x) => vx_parse($x)
//@rw expr Nz::from_str($x) => vx_parse($x)
//@rw expr $x.parse::<NonZeroUsize>() => vx_parse($x)
//@rw expr $x.parse::<Nz>() => vx_parse($x)
//@rw expr $a..=$b => VxRange { s: $a, e: $b }
//@rw expr $x == $y => vx_eq(&$x, &$y)
//@rw expr $x != $y => !vx_eq(&$x, &$y)
//@rw expr $x > $y => vx_gt(&$x, &$y)
//@rw expr $x < $y => vx_gt(&$y, &$x)
//@rw expr $x >= $y => !vx_gt(&$y, &$x)
//@rw expr $x <= $y => !vx_gt(&$x, &$y)
//@known parse_page_number
use vstd::prelude::*;
verus! {
use vstd::string::*;
uninterp spec fn vx_vac(k: int) -> bool;
fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
fn vx_panic<T>() -> T requires false { unimplemented!() }
broadcast axiom fn axiom_str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
struct FmtErr { x: u8 }
/// text that is built
#[verifier::external_body]
struct VString { s: std::string::String }
impl VString { uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
struct VxFmt { s: std::string::String }
impl VxFmt {
    uninterp spec fn view(&self) -> Seq<char>;
    /// Formatter::write_str, which a formatter may refuse
    #[verifier::external_body]
    fn vx_write_fmt(&mut self, s: VString) -> (r: Result<(), FmtErr>) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: Result<(), FmtErr>) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
}
/// std's NonZeroUsize
#[derive(Clone, Copy)]
struct Nz { n: usize }
impl Nz { spec fn view(&self) -> nat { self.n as nat } }
struct VxRange { s: Option<Nz>, e: Option<Nz> }
impl VxRange {
    fn start(&self) -> (r: &Option<Nz>) ensures *r == self.s { &self.s }
    fn end(&self) -> (r: &Option<Nz>) ensures *r == self.e { &self.e }
}
// ---- texts ------------------------------------------------------------------
trait VxText { spec fn txt(&self) -> Seq<char>; }
impl VxText for str { spec fn txt(&self) -> Seq<char> { self@ } }
impl VxText for VString { spec fn txt(&self) -> Seq<char> { self@ } }
impl<'a, T: VxText + ?Sized> VxText for &'a T { spec fn txt(&self) -> Seq<char> { (**self).txt() } }
/// decimal notation
spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) } }
spec fn digit(n: nat) -> char { ((0x30 + n) as u8) as char }
trait VxDisp { spec fn disp(&self) -> Seq<char>; }
impl VxDisp for Nz { spec fn disp(&self) -> Seq<char> { dec(self@) } }
impl VxDisp for VString { spec fn disp(&self) -> Seq<char> { self@ } }
impl VxDisp for str { spec fn disp(&self) -> Seq<char> { self@ } }
impl<'a, T: VxDisp + ?Sized> VxDisp for &'a T { spec fn disp(&self) -> Seq<char> { (**self).disp() } }
#[verifier::external_body]
fn vx_disp<T: VxDisp>(t: T) -> (r: VString) ensures r@ == t.disp() { unimplemented!() }
#[verifier::external_body]
fn vx_fdisp<T: VxDisp + ?Sized>(t: &T) -> (r: VString) ensures r@ == t.disp() { unimplemented!() }
#[verifier::external_body]
fn vx_flit(t: &str) -> (r: VString) ensures r@ == t@ { unimplemented!() }
#[verifier::external_body]
fn vx_fadd(a: VString, b: VString) -> (r: VString) ensures r@ == a@ + b@ { unimplemented!() }
/// str::trim
uninterp spec fn trim(s: Seq<char>) -> Seq<char>;
/// what has no white space at either end stays as it is
broadcast axiom fn trim_plain(s: Seq<char>) ensures (s.len() > 0 ==> !blank(s[0]) && !blank(s.last())) ==> #[trigger] trim(s) == s;
broadcast axiom fn trim_ends(s: Seq<char>) ensures (#[trigger] trim(s)).len() > 0 ==> !blank(trim(s)[0]) && !blank(trim(s).last());
uninterp spec fn blank(c: char) -> bool;
broadcast axiom fn blank_digit(n: nat) ensures n < 10 ==> !blank(#[trigger] digit(n));
#[verifier::external_body]
fn vx_trim<'a>(s: &'a str) -> (r: &'a str) ensures r@ == trim(s@) { unimplemented!() }
/// str::split: the texts between the separators
spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] }
    else if s.last() == c { split(s.drop_last(), c).push(Seq::empty()) }
    else { let p = split(s.drop_last(), c); p.drop_last().push(p.last().push(s.last())) }
}
#[verifier::external_body]
fn vx_split<'a>(s: &'a str, c: char) -> (r: VxIt<&'a str>)
    ensures r.pos() == 0, r.all().len() == split(s@, c).len(), forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i])@ == split(s@, c)[i] { unimplemented!() }
// ---- numbers ----------------------------------------------------------------
spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
spec fn dval(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { dval(s.drop_last()) * 10 + (s.last() as u32 - 0x30) as nat } }
/// what NonZeroUsize::from_str reads
spec fn num(s: Seq<char>) -> Option<nat> {
    let d = if s.len() > 0 && s[0] == '+' { s.drop_first() } else { s };
    if d.len() > 0 && (forall|i: int| 0 <= i < d.len() ==> is_digit(#[trigger] d[i])) && 1 <= dval(d) <= usize::MAX { Some(dval(d)) } else { None }
}
struct ParseErr { x: u8 }
#[verifier::external_body]
fn vx_parse(s: &str) -> (r: Result<Nz, ParseErr>)
    ensures r is Ok <==> num(s@) is Some, r is Ok ==> Some((r->Ok_0)@) == num(s@) { unimplemented!() }
trait VxEq { spec fn same(&self, o: &Self) -> bool; }
impl<'a> VxEq for &'a str { spec fn same(&self, o: &Self) -> bool { self@ == o@ } }
impl<'a> VxEq for &'a &'a str { spec fn same(&self, o: &Self) -> bool { self@ == o@ } }
impl VxEq for Nz { spec fn same(&self, o: &Self) -> bool { self@ == o@ } }
impl VxEq for usize { spec fn same(&self, o: &Self) -> bool { *self == *o } }
impl VxEq for Option<Nz> { spec fn same(&self, o: &Self) -> bool { (self is Some) == (o is Some) && (self is Some ==> (self->0)@ == (o->0)@) } }
#[verifier::external_body]
fn vx_eq<T: VxEq>(a: &T, b: &T) -> (r: bool) ensures r == a.same(b) { unimplemented!() }
trait VxOrd { spec fn gt(&self, o: &Self) -> bool; }
impl VxOrd for Nz { spec fn gt(&self, o: &Self) -> bool { self@ > o@ } }
impl VxOrd for usize { spec fn gt(&self, o: &Self) -> bool { *self > *o } }
impl VxOrd for Option<Nz> { spec fn gt(&self, o: &Self) -> bool { self is Some && (o is None || (self->0)@ > (o->0)@) } }
#[verifier::external_body]
fn vx_gt<T: VxOrd>(a: &T, b: &T) -> (r: bool) ensures r == a.gt(b) { unimplemented!() }
//@include coll.rs
// ---- slices of texts ----------------------------------------------------------
fn vx_len<T>(s: &Vec<T>) -> (r: usize) ensures r == s@.len() { s.len() }
/// (an element, as a text)
fn vx_nth<'a>(s: &Vec<&'a str>, i: usize) -> (r: &'a str) requires i < s@.len() ensures r == s@[i as int] { s[i] }
spec fn are<'a>(s: Vec<&'a str>, p: Seq<Seq<char>>) -> bool { s@.len() <= p.len() && forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i])@ == p[i] }
#[verifier::external_body]
fn vx_lit_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

// ---- what a page range text means ---------------------------------------------
spec fn parts(s: Seq<char>) -> Seq<Seq<char>> { Seq::new(split(s, '-').len(), |i: int| trim(split(s, '-')[i])) }
spec fn meaning(s: Seq<char>) -> Option<(Option<nat>, Option<nat>)> {
    let p = parts(s);
    if p.len() == 1 {
        // one page
        if num(p[0]) is Some { Some((num(p[0]), num(p[0]))) } else { None }
    } else if p.len() == 2 {
        // a range, with a start or an end
        if p[0].len() == 0 && p[1].len() == 0 { None }
        else if p[0].len() == 0 { if num(p[1]) is Some { Some((None, num(p[1]))) } else { None } }
        else if p[1].len() == 0 { if num(p[0]) is Some { Some((num(p[0]), None)) } else { None } }
        else if num(p[0]) is Some && num(p[1]) is Some && num(p[0])->0 <= num(p[1])->0 { Some((num(p[0]), num(p[1]))) }
        else { None }
    } else { None }
}
spec fn val(o: Option<Nz>) -> Option<nat> { match o { Some(n) => Some(n@), None => None } }
spec fn shown(o: Option<Nz>) -> Seq<char> { match o { Some(n) => dec(n@), None => Seq::empty() } }
spec fn valid(r: VxRange) -> bool {
    &&& r.s is Some || r.e is Some
    &&& r.s is Some ==> (r.s->0)@ >= 1
    &&& r.e is Some ==> (r.e->0)@ >= 1
    &&& r.s is Some && r.e is Some ==> (r.s->0)@ <= (r.e->0)@
}
spec fn printed(r: VxRange) -> Seq<char> { shown(r.s) + seq!['-'] + shown(r.e) }
// lemmas
proof fn dec_ok(n: nat)
    ensures dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> is_digit(#[trigger] dec(n)[i]), dval(dec(n)) == n
    decreases n
{
    if n < 10 {
        assert(dval(seq![digit(n)]) == n) by { reveal_with_fuel(dval, 2); assert(seq![digit(n)].drop_last() =~= Seq::<char>::empty()); }
    } else {
        dec_ok(n / 10);
        assert(dec(n).drop_last() =~= dec(n / 10));
    }
}
proof fn split_none(s: Seq<char>, c: char)
    requires !s.contains(c)
    ensures split(s, c) =~= seq![s]
    decreases s.len()
{
    if s.len() > 0 {
        assert(s.contains(s.last()));
        assert forall|x: char| s.drop_last().contains(x) implies s.contains(x) by { let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == x; assert(s[i] == x); }
        split_none(s.drop_last(), c);
        assert(s.drop_last().push(s.last()) =~= s);
    } else { assert(s =~= Seq::<char>::empty()); }
}
proof fn split_some(s: Seq<char>, c: char) ensures split(s, c).len() > 0 decreases s.len()
{ if s.len() > 0 { split_some(s.drop_last(), c); } }
proof fn split_two(a: Seq<char>, b: Seq<char>, c: char)
    requires !a.contains(c), !b.contains(c)
    ensures split(a + seq![c] + b, c) =~= seq![a, b]
    decreases b.len()
{
    let s = a + seq![c] + b;
    if b.len() == 0 {
        assert(b =~= Seq::<char>::empty());
        assert(s.drop_last() =~= a);
        split_none(a, c);
    } else {
        assert(b.contains(b.last()));
        assert forall|x: char| b.drop_last().contains(x) implies b.contains(x) by { let i = choose|i: int| 0 <= i < b.drop_last().len() && b.drop_last()[i] == x; assert(b[i] == x); }
        split_two(a, b.drop_last(), c);
        assert(s.drop_last() =~= a + seq![c] + b.drop_last());
        assert(b.drop_last().push(b.last()) =~= b);
    }
}
proof fn digits_plain(n: nat) ensures trim(dec(n)) == dec(n), !dec(n).contains('-'), n >= 1 && n <= usize::MAX ==> num(dec(n)) == Some(n)
{
    broadcast use {trim_plain, blank_digit};
    dec_ok(n);
    let d = dec(n);
    assert forall|i: int| 0 <= i < d.len() implies !blank(#[trigger] d[i]) by {
        assert(is_digit(d[i]));
        let k = (d[i] as u32 - 0x30) as nat;
        assert(digit(k) == d[i]);
    }
    assert(is_digit(d[0]));
}
/// every valid range survives printing and parsing
proof fn round_trip(r: VxRange)
    requires valid(r)
    ensures meaning(printed(r)) == Some((val(r.s), val(r.e)))
{
    broadcast use {trim_plain, blank_digit};
    if r.s is Some { digits_plain((r.s->0)@); dec_ok((r.s->0)@); }
    if r.e is Some { digits_plain((r.e->0)@); dec_ok((r.e->0)@); }
    let (a, b) = (shown(r.s), shown(r.e));
    split_two(a, b, '-');
    assert(trim(Seq::<char>::empty()) =~= Seq::<char>::empty());
    assert(parts(printed(r)) =~= seq![a, b]);
}
//@type crates/tinymist-task/src/primitives.rs Pages
//@fn crates/tinymist-task/src/primitives.rs parse_page_number C22
//@ret r
//@entry
    proof { reveal_strlit("0"); broadcast use axiom_str_ext; reveal_with_fuel(dval, 2); }
//@spec
    ensures r is Ok <==> num(value@) is Some, r is Ok ==> Some((r->Ok_0)@) == num(value@),
//@end
impl Pages {
//@fn crates/tinymist-task/src/primitives.rs FromStr@Pages::from_str C22
//@ret r
    ensures r is Ok <==> meaning(value@) is Some,
        r is Ok ==> meaning(value@) == Some((val((r->Ok_0).0.s), val((r->Ok_0).0.e))) && valid((r->Ok_0).0),
//@entry
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@loop 0 for
    invariant 0 <= vx_it0.pos() <= vx_it0.all().len(), vx_out0@.len() == vx_it0.pos(), vx_it0.all().len() == parts(value@).len(),
        forall|i: int| 0 <= i < vx_it0.all().len() ==> trim((#[trigger] vx_it0.all()[i])@) == parts(value@)[i],
        are(vx_out0, parts(value@)),
    ensures vx_out0@.len() == parts(value@).len(), are(vx_out0, parts(value@)),
    decreases vx_it0.all().len() - vx_it0.pos()
//@after 0
    proof { split_some(value@, '-'); let ps = parts(value@); assert(ps.len() > 0); assert(forall|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).len() == 0 ==> ps[i] =~= Seq::<char>::empty()); }
//@end
//@fn crates/tinymist-task/src/primitives.rs Display@Pages::fmt C22
//@ret r
    requires valid(self.0)
    ensures r is Ok ==> final(f)@ =~= old(f)@ + printed(self.0), meaning(printed(self.0)) == Some((val(self.0.s), val(self.0.e))),
//@entry
    proof { round_trip(self.0); reveal_strlit(""); reveal_strlit("-"); }
//@end
}
}
fn main() {}
