// typst's Source as the conversions see it, and the conversions: shared by location (C21) and input (C28).
//@option map_option
use vstd::prelude::*;
verus! {
global size_of usize == 8;
uninterp spec fn vx_vac(k: int) -> bool;
fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }
/// how many bytes / UTF-16 units a character takes (std's)
uninterp spec fn b8(c: char) -> nat;
uninterp spec fn b16(c: char) -> nat;
broadcast axiom fn b8_bound(c: char) ensures 1 <= #[trigger] b8(c) <= 4;
broadcast axiom fn b16_bound(c: char) ensures 1 <= #[trigger] b16(c) <= 2, b16(c) <= b8(c);
/// the length of a text
spec fn len8(t: Seq<char>) -> nat decreases t.len() { if t.len() == 0 { 0 } else { len8(t.drop_last()) + b8(t.last()) } }
spec fn len16(t: Seq<char>) -> nat decreases t.len() { if t.len() == 0 { 0 } else { len16(t.drop_last()) + b16(t.last()) } }
#[verifier::opaque]
spec fn off8(t: Seq<char>, i: int) -> nat { len8(t.take(i)) }
#[verifier::opaque]
spec fn off16(t: Seq<char>, i: int) -> nat { len16(t.take(i)) }
proof fn step(t: Seq<char>, i: int) requires 0 <= i < t.len() ensures off8(t, i + 1) == off8(t, i) + b8(t[i]), off16(t, i + 1) == off16(t, i) + b16(t[i])
{ reveal(off8); reveal(off16); assert(t.take(i + 1).drop_last() =~= t.take(i)); }
proof fn mono(t: Seq<char>, i: int, j: int) requires 0 <= i <= j <= t.len() ensures off8(t, i) + (j - i) <= off8(t, j), off16(t, i) + (j - i) <= off16(t, j), off16(t, j) - off16(t, i) <= off8(t, j) - off8(t, i) decreases j - i
{ broadcast use b8_bound, b16_bound; if i < j { step(t, j - 1); mono(t, i, j - 1); } }
proof fn part(t: Seq<char>, i: int, j: int) requires 0 <= i <= j <= t.len() ensures len8(t.subrange(i, j)) == off8(t, j) - off8(t, i), len16(t.subrange(i, j)) == off16(t, j) - off16(t, i) decreases j - i
{ if i < j { step(t, j - 1); part(t, i, j - 1); assert(t.subrange(i, j).drop_last() =~= t.subrange(i, j - 1)); } else { assert(t.subrange(i, j) =~= Seq::empty()); } }
/// offsets tell the place
proof fn same_off(t: Seq<char>, i: int, j: int) requires 0 <= i <= t.len(), 0 <= j <= t.len() ensures (off8(t, i) == off8(t, j)) == (i == j), (off8(t, i) < off8(t, j)) == (i < j), (off16(t, i) == off16(t, j)) == (i == j), (off16(t, i) < off16(t, j)) == (i < j)
{ if i < j { mono(t, i, j); } else { mono(t, j, i); } }

/// typst's source file: its text, and where its lines start
#[verifier::external_body]
struct Source { x: u8 }
/// where the next line starts
spec fn next(t: Seq<char>, l: int) -> int { if l + 1 < lines(t).len() { lines(t)[l + 1] } else { t.len() as int } }
spec fn is_place(t: Seq<char>, b: int) -> bool { exists|i: int| 0 <= i <= t.len() && #[trigger] off8(t, i) == b }
/// the character at a byte offset
spec fn place(t: Seq<char>, b: int) -> int { choose|i: int| 0 <= i <= t.len() && #[trigger] off8(t, i) == b }
proof fn place_of(t: Seq<char>, i: int) requires 0 <= i <= t.len() ensures is_place(t, off8(t, i) as int), place(t, off8(t, i) as int) == i
{ same_off(t, i, place(t, off8(t, i) as int)); }
impl Source {
    uninterp spec fn text_(&self) -> Seq<char>;
    #[verifier::external_body]
    fn len_lines(&self) -> (r: usize) ensures r == lines(self.text_()).len() { unimplemented!() }
    #[verifier::external_body]
    fn len_bytes(&self) -> (r: usize) ensures r == len8(self.text_()) { unimplemented!() }
    #[verifier::external_body]
    fn line_to_byte(&self, l: usize) -> (r: Option<usize>) ensures r is Some <==> l < lines(self.text_()).len(), r is Some ==> r->0 == off8(self.text_(), lines(self.text_())[l as int]) { unimplemented!() }
    #[verifier::external_body]
    fn line_to_range(&self, l: usize) -> (r: Option<Range<usize>>)
        ensures r is Some <==> l < lines(self.text_()).len(), r is Some ==> (r->0).start == off8(self.text_(), lines(self.text_())[l as int]) && (r->0).end == off8(self.text_(), next(self.text_(), l as int)) { unimplemented!() }
    #[verifier::external_body]
    fn byte_to_line(&self, b: usize) -> (r: Option<usize>)
        ensures r is Some <==> b <= len8(self.text_()), r is Some ==> r->0 < lines(self.text_()).len() && off8(self.text_(), lines(self.text_())[r->0 as int]) <= b && (r->0 + 1 < lines(self.text_()).len() ==> b < off8(self.text_(), lines(self.text_())[r->0 + 1])) { unimplemented!() }
    /// a column counts characters
    #[verifier::external_body]
    fn byte_to_column(&self, b: usize) -> (r: Option<usize>)
        ensures r is Some <==> is_place(self.text_(), b as int), r is Some ==> exists|l: int| 0 <= l < lines(self.text_()).len() && #[trigger] lines(self.text_())[l] <= place(self.text_(), b as int) && (l + 1 < lines(self.text_()).len() ==> place(self.text_(), b as int) < next(self.text_(), l)) && r->0 == place(self.text_(), b as int) - lines(self.text_())[l] { unimplemented!() }
    #[verifier::external_body]
    fn line_column_to_byte(&self, l: usize, c: usize) -> (r: Option<usize>)
        ensures r is Some <==> l < lines(self.text_()).len(), r is Some ==> r->0 == off8(self.text_(), if lines(self.text_())[l as int] + c <= next(self.text_(), l as int) { lines(self.text_())[l as int] + c } else { next(self.text_(), l as int) }) { unimplemented!() }
    #[verifier::external_body]
    fn byte_to_utf16(&self, b: usize) -> (r: Option<usize>)
        ensures r is Some <==> is_place(self.text_(), b as int), r is Some ==> r->0 == off16(self.text_(), place(self.text_(), b as int)) { unimplemented!() }
    #[verifier::external_body]
    fn utf16_to_byte(&self, u: usize) -> (r: Option<usize>)
        ensures r is None ==> u != len16(self.text_()) && (self.text_().len() > 0 ==> u > off16(self.text_(), self.text_().len() - 1)),
            r is Some ==> exists|i: int| 0 <= i <= self.text_().len() && r->0 == #[trigger] off8(self.text_(), i) && off16(self.text_(), i) >= u && (i > 0 ==> off16(self.text_(), i - 1) < u) { unimplemented!() }
    #[verifier::external_body]
    fn len_utf16(&self) -> (r: usize) ensures r == len16(self.text_()) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, r: Range<usize>) -> (o: Option<&str>)
        ensures o is Some <==> r.start <= r.end && is_place(self.text_(), r.start as int) && is_place(self.text_(), r.end as int), o is Some ==> (o->0)@ == self.text_().subrange(place(self.text_(), r.start as int), place(self.text_(), r.end as int)) { unimplemented!() }
    #[verifier::external_body]
    fn text(&self) -> (r: &str) ensures r@ == self.text_() { unimplemented!() }
}
#[verifier::external_body]
fn vx_blen(s: &str) -> (r: usize) ensures r == len8(s@) { unimplemented!() }
#[verifier::external_body]
fn vx_wlen(s: &str) -> (r: usize) ensures r == len16(s@) { unimplemented!() }
/// the rest of a text; panics within a character
#[verifier::external_body]
fn vx_from(s: &str, b: usize) -> (r: &str)
    requires exists|i: int| 0 <= i <= s@.len() && #[trigger] off8(s@, i) == b
    ensures exists|i: int| 0 <= i <= s@.len() && #[trigger] off8(s@, i) == b && r@ == s@.subrange(i, s@.len() as int) { unimplemented!() }
#[verifier::external_body]
fn vx_boundary(s: &str, b: usize) -> (r: bool) ensures r <==> exists|i: int| 0 <= i <= s@.len() && #[trigger] off8(s@, i) == b { unimplemented!() }
/// typst's line breaks
uninterp spec fn newline(c: char) -> bool;
spec fn trimmed(t: Seq<char>) -> int decreases t.len() { if t.len() > 0 && newline(t.last()) { trimmed(t.drop_last()) } else { t.len() as int } }
#[verifier::external_body]
fn vx_trim(s: &str) -> (r: &str) ensures r@ == s@.take(trimmed(s@)) { unimplemented!() }
proof fn trim_bound(t: Seq<char>) ensures 0 <= trimmed(t) <= t.len() decreases t.len() { if t.len() > 0 && newline(t.last()) { trim_bound(t.drop_last()); } }
/// where the lines of a text start (typst's)
uninterp spec fn lines(t: Seq<char>) -> Seq<int>;
axiom fn lines_ok(t: Seq<char>)
    ensures lines(t).len() >= 1, lines(t)[0] == 0, forall|l: int| 0 <= l < lines(t).len() ==> 0 <= #[trigger] lines(t)[l] <= t.len(),
        forall|l: int, m: int| 0 <= l < m < lines(t).len() ==> #[trigger] lines(t)[l] < #[trigger] lines(t)[m],
        newline_free(t, lines(t).last());
/// the last line has no line break
spec fn newline_free(t: Seq<char>, i: int) -> bool { forall|j: int| i <= j < t.len() ==> !newline(#[trigger] t[j]) }
#[derive(Clone, Copy)]
struct LspPosition { line: u32, character: u32 }
#[derive(Clone, Copy)]
struct LspRange { start: LspPosition, end: LspPosition }
struct Range<T> { start: T, end: T }
impl LspPosition { fn new(line: u32, character: u32) -> (r: LspPosition) ensures r.line == line, r.character == character { LspPosition { line, character } } }
impl LspRange { fn new(start: LspPosition, end: LspPosition) -> (r: LspRange) ensures r.start == start, r.end == end { LspRange { start, end } } }
enum Ordering { Less, Equal, Greater }
fn vx_cmp(a: &u32, b: &u32) -> (r: Ordering) ensures r == (if *a < *b { Ordering::Less } else if *a == *b { Ordering::Equal } else { Ordering::Greater })
{ if *a < *b { Ordering::Less } else if *a == *b { Ordering::Equal } else { Ordering::Greater } }
fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
impl VxDup for Range<usize> { }
trait VxDup: Sized { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@rw expr $x.cmp($y) => vx_cmp(&$x, $y)
//@rw expr $x.min($y) => vx_min($x, $y)
//@rw expr $x.trim_end_matches(is_newline) => vx_trim($x)
//@rw expr $x.chars().map(char::len_utf16).sum::<usize>() => vx_wlen($x)
//@rw expr &$x[$a..] => vx_from($x, $a)
//@rw expr $x.is_char_boundary($y) => vx_boundary($x, $y)
//@rw expr $x.len() => vx_blen($x)
//@type crates/tinymist-analysis/src/location.rs PositionEncoding #[derive(Clone,Copy)]
spec fn units(t: Seq<char>, i: int, j: int, e: PositionEncoding) -> int { match e { PositionEncoding::Utf16 => off16(t, j) - off16(t, i), PositionEncoding::Utf8 => off8(t, j) - off8(t, i) } }
/// where the text of a line ends, before its line break
spec fn line_end(t: Seq<char>, l: int) -> int { lines(t)[l] + trimmed(t.subrange(lines(t)[l], next(t, l))) }
/// the line a character is in
spec fn in_line(t: Seq<char>, i: int, l: int) -> bool { 0 <= l < lines(t).len() && lines(t)[l] <= i && (l + 1 < lines(t).len() ==> i < lines(t)[l + 1]) }
/// the wire has 32 bits for lines and columns
spec fn small(t: Seq<char>) -> bool { lines(t).len() < u32::MAX && len8(t) < u32::MAX }
/// what a position of the client means
#[verifier::opaque]
spec fn means(t: Seq<char>, p: LspPosition, e: PositionEncoding, r: Option<usize>) -> bool { let l = p.line as int;
    if l >= lines(t).len() { r == Some(len8(t) as usize) }
    else {
        let b = lines(t)[l]; let end = line_end(t, l);
        &&& r is Some ==> exists|i: int| b <= i <= end && #[trigger] off8(t, i) == r->0
        &&& p.character >= units(t, b, end, e) ==> r == Some(off8(t, end) as usize)
        &&& forall|i: int| b <= i <= end && #[trigger] units(t, b, i, e) == p.character ==> r == Some(off8(t, i) as usize)
    }
}
/// the position of a character
spec fn shown(t: Seq<char>, i: int, e: PositionEncoding, p: LspPosition) -> bool { in_line(t, i, p.line as int) && p.character == units(t, lines(t)[p.line as int], i, e) }
/// offsets grow, and stay in the text
proof fn offsets(t: Seq<char>)
    ensures forall|i: int, j: int| #![trigger off8(t, i), off8(t, j)] 0 <= i < j <= t.len() ==> off8(t, i) < off8(t, j),
        forall|i: int, j: int| #![trigger off16(t, i), off16(t, j)] 0 <= i < j <= t.len() ==> off16(t, i) < off16(t, j) && off16(t, j) - off16(t, i) <= off8(t, j) - off8(t, i),
        off8(t, t.len() as int) == len8(t), off16(t, t.len() as int) == len16(t), off8(t, 0) == 0, off16(t, 0) == 0,
        forall|i: int| 0 <= i <= t.len() ==> #[trigger] off8(t, i) <= len8(t) && off16(t, i) <= len16(t) && off16(t, i) <= off8(t, i),
        forall|i: int| 0 <= i <= t.len() ==> is_place(t, #[trigger] off8(t, i) as int) && place(t, off8(t, i) as int) == i,
        forall|i: int| 0 <= i <= t.len() ==> len8(#[trigger] t.subrange(i, t.len() as int)) == len8(t) - off8(t, i) && len16(t.subrange(i, t.len() as int)) == len16(t) - off16(t, i),
        len16(t) <= len8(t)
{ let n = t.len() as int;
    reveal(off8); reveal(off16); assert(t.take(n) =~= t); assert(t.take(0) =~= Seq::empty());
    assert forall|i: int, j: int| #![trigger off8(t, i), off8(t, j)] 0 <= i < j <= n implies off8(t, i) < off8(t, j) by { mono(t, i, j); }
    assert forall|i: int, j: int| #![trigger off16(t, i), off16(t, j)] 0 <= i < j <= n implies off16(t, i) < off16(t, j) && off16(t, j) - off16(t, i) <= off8(t, j) - off8(t, i) by { mono(t, i, j); }
    assert forall|i: int| 0 <= i <= n implies #[trigger] off8(t, i) <= len8(t) && off16(t, i) <= len16(t) && off16(t, i) <= off8(t, i) by { mono(t, i, n); mono(t, 0, i); }
    assert forall|i: int| 0 <= i <= n implies is_place(t, #[trigger] off8(t, i) as int) && place(t, off8(t, i) as int) == i by { place_of(t, i); }
    assert forall|i: int| 0 <= i <= n implies len8(#[trigger] t.subrange(i, n)) == len8(t) - off8(t, i) && len16(t.subrange(i, n)) == len16(t) - off16(t, i) by { part(t, i, n); }
    mono(t, 0, n);
}
proof fn untrimmed(t: Seq<char>) requires newline_free(t, 0) ensures trimmed(t) == t.len() { }
proof fn line_facts(t: Seq<char>, l: int)
    requires 0 <= l < lines(t).len()
    ensures 0 <= lines(t)[l] <= line_end(t, l) <= next(t, l) <= t.len(),
        len8(t.subrange(lines(t)[l], next(t, l)).take(trimmed(t.subrange(lines(t)[l], next(t, l))))) == off8(t, line_end(t, l)) - off8(t, lines(t)[l]),
        l + 1 == lines(t).len() ==> line_end(t, l) == t.len(), l + 1 < lines(t).len() ==> lines(t)[l] < lines(t)[l + 1]
{ let b = lines(t)[l]; let n = next(t, l);
    lines_ok(t);
    let x = t.subrange(b, n);
    trim_bound(x);
    part(t, b, line_end(t, l));
    assert(x.take(trimmed(x)) =~= t.subrange(b, line_end(t, l)));
    if l + 1 == lines(t).len() { assert forall|j: int| 0 <= j < x.len() implies !newline(#[trigger] x[j]) by { assert(x[j] == t[b + j]); } untrimmed(x); }
}
/// the smaller of two
spec fn low(a: int, b: int) -> int { if a <= b { a } else { b } }
/// what the place of a position is
proof fn decide(t: Seq<char>, p: LspPosition, e: PositionEncoding)
    requires small(t)
    ensures p.line >= lines(t).len() ==> means(t, p, e, Some(len8(t) as usize)),
        p.line < lines(t).len() ==> {
            let l = p.line as int; let b = lines(t)[l]; let end = line_end(t, l);
            &&& p.line + 1 == lines(t).len() && p.character >= units(t, b, t.len() as int, e) ==> means(t, p, e, Some(len8(t) as usize))
            &&& e is Utf8 ==> (is_place(t, low(off8(t, b) + p.character, off8(t, end) as int)) ==> means(t, p, e, Some(low(off8(t, b) + p.character, off8(t, end) as int) as usize)))
            &&& e is Utf8 ==> (!is_place(t, low(off8(t, b) + p.character, off8(t, end) as int)) ==> means(t, p, e, None))
            &&& e is Utf16 ==> (off16(t, b) + p.character != len16(t) && (t.len() > 0 ==> off16(t, b) + p.character > off16(t, t.len() - 1)) ==> means(t, p, e, Some(off8(t, end) as usize)))
            &&& e is Utf16 ==> (forall|i: int| #![trigger off8(t, i)] 0 <= i <= t.len() && off16(t, i) >= off16(t, b) + p.character && (i > 0 ==> off16(t, i - 1) < off16(t, b) + p.character) ==> means(t, p, e, Some(low(off8(t, i) as int, off8(t, end) as int) as usize)))
        }
{
    reveal(means); lines_ok(t); offsets(t);
    if p.line < lines(t).len() {
        let l = p.line as int; let b = lines(t)[l]; let end = line_end(t, l);
        line_facts(t, l);
        match e {
            PositionEncoding::Utf8 => { decide8(t, p); }
            PositionEncoding::Utf16 => {
                past16(t, p);
                assert forall|i: int| #![trigger off8(t, i)] 0 <= i <= t.len() && off16(t, i) >= off16(t, b) + p.character && (i > 0 ==> off16(t, i - 1) < off16(t, b) + p.character) implies means(t, p, e, Some(low(off8(t, i) as int, off8(t, end) as int) as usize)) by { decide16(t, p, i); }
            }
        }
        if p.line + 1 == lines(t).len() && p.character >= units(t, b, t.len() as int, e) { over(t, p, e); }
    }
}
/// past the end of its line
proof fn over(t: Seq<char>, p: LspPosition, e: PositionEncoding)
    requires small(t), p.line < lines(t).len(), p.character >= units(t, lines(t)[p.line as int], line_end(t, p.line as int), e)
    ensures means(t, p, e, Some(off8(t, line_end(t, p.line as int)) as usize))
{ let l = p.line as int; let b = lines(t)[l]; let end = line_end(t, l);
    reveal(means); line_facts(t, l); offsets(t);
    assert forall|i: int| b <= i <= end && #[trigger] units(t, b, i, e) == p.character implies i == end by { same_off(t, i, end); }
}
/// within its line
proof fn within(t: Seq<char>, p: LspPosition, e: PositionEncoding, i: int)
    requires small(t), p.line < lines(t).len(), lines(t)[p.line as int] <= i <= line_end(t, p.line as int), p.character == units(t, lines(t)[p.line as int], i, e)
    ensures means(t, p, e, Some(off8(t, i) as usize))
{ let l = p.line as int; let b = lines(t)[l]; let end = line_end(t, l);
    reveal(means); line_facts(t, l); offsets(t);
    assert forall|j: int| b <= j <= end && #[trigger] units(t, b, j, e) == p.character implies j == i by { same_off(t, i, j); }
    same_off(t, i, end);
}
proof fn decide8(t: Seq<char>, p: LspPosition)
    requires small(t), p.line < lines(t).len()
    ensures ({
        let l = p.line as int; let b = lines(t)[l]; let end = line_end(t, l); let r = low(off8(t, b) + p.character, off8(t, end) as int);
        if is_place(t, r) { means(t, p, PositionEncoding::Utf8, Some(r as usize)) } else { means(t, p, PositionEncoding::Utf8, None) }
    })
{ let l = p.line as int; let b = lines(t)[l]; let end = line_end(t, l); let r = low(off8(t, b) + p.character, off8(t, end) as int);
    reveal(means); line_facts(t, l); offsets(t); place_of(t, end);
    if off8(t, b) + p.character >= off8(t, end) { over(t, p, PositionEncoding::Utf8); }
    else if is_place(t, r) {
        let i = place(t, r);
        same_off(t, i, b); same_off(t, i, end);
        within(t, p, PositionEncoding::Utf8, i);
    }
}
proof fn past16(t: Seq<char>, p: LspPosition)
    requires small(t), p.line < lines(t).len()
    ensures ({
        let l = p.line as int; let b = lines(t)[l]; let end = line_end(t, l); let u = off16(t, b) + p.character;
        u != len16(t) && (t.len() > 0 ==> u > off16(t, t.len() - 1)) ==> means(t, p, PositionEncoding::Utf16, Some(off8(t, end) as usize))
    })
{ let l = p.line as int; let b = lines(t)[l]; let end = line_end(t, l); let u = off16(t, b) + p.character;
    reveal(means); line_facts(t, l); offsets(t);
    if u != len16(t) && (t.len() > 0 ==> u > off16(t, t.len() - 1)) {
        if u >= off16(t, end) { over(t, p, PositionEncoding::Utf16); }
        else {
            assert(t.len() > 0);
            assert forall|j: int| b <= j <= end && #[trigger] units(t, b, j, PositionEncoding::Utf16) == p.character implies false by { same_off(t, j, t.len() as int); same_off(t, j, t.len() - 1); }
        }
    }
}
proof fn decide16(t: Seq<char>, p: LspPosition, i: int)
    requires small(t), p.line < lines(t).len(), 0 <= i <= t.len(), off16(t, i) >= off16(t, lines(t)[p.line as int]) + p.character,
        i > 0 ==> off16(t, i - 1) < off16(t, lines(t)[p.line as int]) + p.character
    ensures means(t, p, PositionEncoding::Utf16, Some(low(off8(t, i) as int, off8(t, line_end(t, p.line as int)) as int) as usize))
{ let l = p.line as int; let b = lines(t)[l]; let end = line_end(t, l); let u = off16(t, b) + p.character;
    reveal(means); line_facts(t, l); offsets(t);
    same_off(t, i, end); same_off(t, i, b);
    if i > 0 { same_off(t, i - 1, end); same_off(t, i - 1, b); }
    if u >= off16(t, end) { over(t, p, PositionEncoding::Utf16); }
    else if off16(t, i) == u { within(t, p, PositionEncoding::Utf16, i); }
    else {
        assert forall|j: int| b <= j <= end && #[trigger] units(t, b, j, PositionEncoding::Utf16) == p.character implies false by { same_off(t, j, i); if i > 0 { same_off(t, j, i - 1); } }
    }
}
/// the offsets of a line
proof fn line_offsets(t: Seq<char>, l: int)
    requires 0 <= l < lines(t).len()
    ensures ({
        let b = lines(t)[l]; let n = next(t, l); let end = line_end(t, l);
        &&& 0 <= b <= end <= n <= t.len()
        &&& off8(t, b) <= off8(t, end) <= off8(t, n) <= len8(t)
        &&& off16(t, b) <= len16(t) <= len8(t)
        &&& is_place(t, off8(t, b) as int) && place(t, off8(t, b) as int) == b
        &&& is_place(t, off8(t, n) as int) && place(t, off8(t, n) as int) == n
        &&& len8(t.subrange(b, n).take(trimmed(t.subrange(b, n)))) == off8(t, end) - off8(t, b)
        &&& forall|i: int| 0 <= i <= t.len() && #[trigger] off8(t, i) == off8(t, b) ==> i == b
        &&& len8(t.subrange(b, t.len() as int)) == units(t, b, t.len() as int, PositionEncoding::Utf8) <= len8(t)
        &&& len16(t.subrange(b, t.len() as int)) == units(t, b, t.len() as int, PositionEncoding::Utf16) <= len8(t)
    })
{ line_facts(t, l); offsets(t); let n = t.len() as int; part(t, lines(t)[l], n); assert(off8(t, next(t, l)) <= len8(t)); same_off(t, lines(t)[l], line_end(t, l)); same_off(t, line_end(t, l), next(t, l)); }
//@fn crates/tinymist-analysis/src/location.rs to_typst_position C21 C28
//@ret r
    requires small(typst_source.text_())
    ensures means(typst_source.text_(), lsp_position, lsp_position_encoding, r)
//@entry
    proof { decide(typst_source.text_(), lsp_position, lsp_position_encoding); lines_ok(typst_source.text_()); if lsp_position.line < lines(typst_source.text_()).len() { line_offsets(typst_source.text_(), lsp_position.line as int); } }
//@end
//@fn crates/tinymist-analysis/src/location.rs to_lsp_position C21 C28
//@ret r
    requires small(typst_source.text_()), typst_offset <= len8(typst_source.text_()) ==> is_place(typst_source.text_(), typst_offset as int)
    ensures typst_offset > len8(typst_source.text_()) ==> r.line == lines(typst_source.text_()).len() && r.character == 0,
        forall|i: int| 0 <= i <= typst_source.text_().len() && typst_offset == #[trigger] off8(typst_source.text_(), i) ==> shown(typst_source.text_(), i, lsp_position_encoding, r)
//@entry
    proof { lines_ok(typst_source.text_()); offsets(typst_source.text_()); }
//@end
//@fn crates/tinymist-analysis/src/location.rs to_typst_range C21 C28
//@ret r
    requires small(source.text_())
    ensures r is Some ==> means(source.text_(), lsp_range.start, lsp_position_encoding, Some((r->0).start)) && means(source.text_(), lsp_range.end, lsp_position_encoding, Some((r->0).end)),
        r is None ==> means(source.text_(), lsp_range.start, lsp_position_encoding, None) || means(source.text_(), lsp_range.end, lsp_position_encoding, None)
//@end
//@fn crates/tinymist-analysis/src/location.rs to_lsp_range C21 C28
//@ret r
    requires small(typst_source.text_()), typst_range.start <= len8(typst_source.text_()) ==> is_place(typst_source.text_(), typst_range.start as int), typst_range.end <= len8(typst_source.text_()) ==> is_place(typst_source.text_(), typst_range.end as int)
    ensures forall|i: int| 0 <= i <= typst_source.text_().len() && typst_range.start == #[trigger] off8(typst_source.text_(), i) ==> shown(typst_source.text_(), i, lsp_position_encoding, r.start),
        forall|i: int| 0 <= i <= typst_source.text_().len() && typst_range.end == #[trigger] off8(typst_source.text_(), i) ==> shown(typst_source.text_(), i, lsp_position_encoding, r.end),
//@end
