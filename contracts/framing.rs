// Unit: the wire framing (C01, C02). Text is a sequence of bytes here.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@option drop_items
//@rw type String => VStr
//@rw type &str => &VStr
//@rw type &mut dyn BufRead => &mut VxRead
//@rw type &mut dyn io::BufRead => &mut VxRead
//@rw type &mut dyn Write => &mut VxWrite
//@rw type &mut dyn io::Write => &mut VxWrite
//@rw type io::Result<$t> => Result<$t, IoErr>
//@rw type std::io::Result<$t> => Result<$t, IoErr>
//@macro write => vx_write($args)
//@macro invalid_data_fmt => vx_invalid($args)
//@rw expr $b.ends_with($s) => $b.vx_ends_with($s)
//@rw expr &$b[..$e] => $b.vx_to($e)
//@rw expr &$b[$e..] => $b.vx_from($e)
//@rw expr $b.splitn(2, $s) => $b.vx_split2($s)
//@rw expr $b.split_once($s) => $b.vx_split_once($s)
//@rw expr $b.strip_suffix($s) => $b.vx_strip_suffix($s)
//@rw expr $x.parse::<usize>() => $x.vx_parse_usize()
//@rw expr $x.parse() => $x.vx_parse_usize()
//@rw expr String::new() => VStr::new()
//@rw expr String::from_utf8($b) => vx_from_utf8($b)
//@rw expr inp.take($n).read_to_end($b) => vx_read_upto(inp, $n, $b)
//@rw expr $b.resize($n, 0) => vx_resize($b, $n)
//@rw expr vec![0; $n] => vx_zeroed($n)
//@rw expr inp.read_exact($b) => vx_read_exact(inp, $b)
//@rw expr io::ErrorKind::UnexpectedEof.into() => vx_eof()
//@rw expr io::Error::from(io::ErrorKind::UnexpectedEof) => vx_eof()
//@rw expr invalid_data($e) => vx_invalid()
//@rw expr vx_invalid($_list) => vx_invalid()
//@rw expr crate::invalid_data($e) => vx_invalid()
//@rw expr serde_json::from_str(&$t) => vx_decode(&$t)
//@rw expr read_msg_text(r) => read_msg_text(r)
//@rw expr serde_json::to_string(&JsonRpc { jsonrpc: "2.0", msg: self }) => vx_encode(self)
//@rw expr lsp::Message::read(reader) => Message::_read(reader)
use vstd::prelude::*;
use vstd::string::*;
verus! {
uninterp spec fn vx_vac(k: int) -> bool;
#[verifier::external_body]
#[derive(Debug)]
struct IoErr { x: u8 }
#[verifier::external_body]
fn vx_invalid() -> (r: IoErr) { unimplemented!() }
#[verifier::external_body]
fn vx_eof() -> (r: IoErr) { unimplemented!() }

// ---- text ----------------------------------------------------------------------
/// well-formed UTF-8 (assumed: every ASCII sequence is)
uninterp spec fn is_utf8(s: Seq<u8>) -> bool;
axiom fn axiom_ascii(s: Seq<u8>) ensures (forall|i: int| 0 <= i < s.len() ==> s[i] < 128) ==> is_utf8(s);
/// a `String` or `str`, as its bytes
#[verifier::external_body]
struct VStr { x: u8 }
impl View for VStr { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
broadcast axiom fn axiom_vstr(s: &VStr) ensures is_utf8(#[trigger] s@), s@.len() <= usize::MAX;
/// the bytes of an ASCII literal
spec fn lit(s: &str) -> Seq<u8> { Seq::new(s@.len(), |i: int| s@[i] as u8) }
spec fn ends(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() >= b.len() && a.skip(a.len() - b.len()) =~= b }
spec fn at(a: Seq<u8>, b: Seq<u8>, i: int) -> bool { 0 <= i && i + b.len() <= a.len() && a.subrange(i, i + b.len()) =~= b }
/// the first place from `from` on where `b` occurs in `a`
#[verifier::opaque]
spec fn find(a: Seq<u8>, b: Seq<u8>, from: int) -> Option<int>
    decreases a.len() - from
{
    if from < 0 || from + b.len() > a.len() { None } else if at(a, b, from) { Some(from) } else { find(a, b, from + 1) }
}
spec fn lower(c: u8) -> u8 { if 65 <= c <= 90 { (c + 32) as u8 } else { c } }
spec fn ieq(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lower(#[trigger] a[i]) == lower(b[i]) }
spec fn is_digit(c: u8) -> bool { 48 <= c <= 57 }
spec fn digits_val(s: Seq<u8>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { digits_val(s.drop_last()) * 10 + (s.last() - 48) } }
spec fn all_digits(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
/// `str::parse::<usize>`
spec fn parse_usize(s: Seq<u8>) -> Option<int> {
    let d = if s.len() > 0 && s[0] == 43 { s.skip(1) } else { s };
    if all_digits(d) && digits_val(d) <= usize::MAX { Some(digits_val(d)) } else { None }
}
spec fn digits(n: int) -> Seq<u8>
    decreases n
{ if n < 10 { seq![(48 + n) as u8] } else { digits(n / 10).push((48 + n % 10) as u8) } }

impl VStr {
    #[verifier::external_body]
    fn new() -> (r: VStr) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn vx_ends_with(&self, s: &str) -> (r: bool) ensures r == ends(self@, lit(s)) { unimplemented!() }
    /// slicing text panics unless the end is a character boundary: here, before a line end
    #[verifier::external_body]
    fn vx_to(&self, n: usize) -> (r: &VStr)
        requires n <= self@.len(), n == self@.len() || self@[n as int] < 128,
        ensures r@ == self@.take(n as int) { unimplemented!() }
    #[verifier::external_body]
    fn vx_from(&self, n: usize) -> (r: &VStr)
        requires n <= self@.len(), n == self@.len() || self@[n as int] < 128,
        ensures r@ == self@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split2<'a>(&'a self, s: &str) -> (r: VxSplit<'a>)
        ensures r.parts == (match find(self@, lit(s), 0) {
            Some(i) => seq![self@.take(i), self@.skip(i + lit(s).len())], None => seq![self@] }) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split_once<'a>(&'a self, s: &str) -> (r: Option<(&'a VStr, &'a VStr)>)
        ensures match find(self@, lit(s), 0) {
            Some(i) => r is Some && (r->0).0@ == self@.take(i) && (r->0).1@ == self@.skip(i + lit(s).len()), None => r is None } { unimplemented!() }
    #[verifier::external_body]
    fn vx_strip_suffix<'a>(&'a self, s: &str) -> (r: Option<&'a VStr>)
        ensures r is Some <==> ends(self@, lit(s)), r is Some ==> (r->0)@ == self@.take(self@.len() - lit(s).len()) { unimplemented!() }
    #[verifier::external_body]
    fn eq_ignore_ascii_case(&self, s: &str) -> (r: bool) ensures r == ieq(self@, lit(s)) { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse_usize(&self) -> (r: Result<usize, IoErr>)
        ensures r is Ok <==> parse_usize(self@) is Some, r is Ok ==> r->Ok_0 == parse_usize(self@)->0 { unimplemented!() }
    #[verifier::external_body]
    fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: &Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
struct VxSplit<'a> { ghost parts: Seq<Seq<u8>>, keep: core::marker::PhantomData<&'a u8> }
impl<'a> VxSplit<'a> {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a VStr>)
        ensures old(self).parts.len() == 0 ==> r is None && final(self).parts == old(self).parts,
            old(self).parts.len() > 0 ==> r is Some && (r->0)@ == old(self).parts[0] && final(self).parts == old(self).parts.drop_first(),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_from_utf8(b: Vec<u8>) -> (r: Result<VStr, IoErr>)
    ensures r is Ok <==> is_utf8(b@), r is Ok ==> (r->Ok_0)@ == b@ { unimplemented!() }

// ---- streams -------------------------------------------------------------------
/// an input stream: what is still to come, and whether it is free of I/O errors
#[verifier::external_body]
struct VxRead { x: u8 }
impl VxRead {
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn sound(&self) -> bool;
    #[verifier::external_body]
    fn read_line(&mut self, buf: &mut VStr) -> (r: Result<usize, IoErr>)
        ensures
            final(self).sound() == old(self).sound(),
            old(self).sound() ==> (r is Ok <==> is_utf8(first_line(old(self).rest()))),
            r is Ok ==> {
                let l = first_line(old(self).rest());
                &&& is_utf8(l)
                &&& r->Ok_0 == l.len()
                &&& final(buf)@ == old(buf)@ + l
                &&& final(self).rest() == old(self).rest().skip(l.len() as int)
            },
    { unimplemented!() }
}
/// up to and with the first line feed, or all there is
spec fn first_line(s: Seq<u8>) -> Seq<u8> { match find(s, seq![10u8], 0) { Some(i) => s.take(i + 1), None => s } }
/// `take(n).read_to_end(b)`: memory grows with what arrives
#[verifier::external_body]
fn vx_read_upto(r: &mut VxRead, n: u64, b: &mut Vec<u8>) -> (k: Result<usize, IoErr>)
    ensures
        final(r).sound() == old(r).sound(),
        old(r).sound() ==> k is Ok,
        k is Ok ==> {
            let m = if old(r).rest().len() <= n { old(r).rest().len() as int } else { n as int };
            &&& k->Ok_0 == m
            &&& final(b)@ == old(b)@ + old(r).rest().take(m)
            &&& final(r).rest() == old(r).rest().skip(m)
        },
{ unimplemented!() }
#[verifier::external_body]
fn vx_read_exact(r: &mut VxRead, b: &mut Vec<u8>) -> (k: Result<(), IoErr>)
    ensures
        final(r).sound() == old(r).sound(),
        old(r).sound() ==> (k is Ok <==> old(r).rest().len() >= old(b)@.len()),
        k is Ok ==> old(r).rest().len() >= old(b)@.len() && final(b)@ == old(r).rest().take(old(b)@.len() as int)
            && final(r).rest() == old(r).rest().skip(old(b)@.len() as int),
{ unimplemented!() }
/// memory for more than isize::MAX bytes cannot be had: asking for it panics
#[verifier::external_body]
fn vx_resize(b: &mut Vec<u8>, n: usize) requires n <= isize::MAX ensures final(b)@.len() == n { unimplemented!() }
#[verifier::external_body]
fn vx_zeroed(n: usize) -> (b: Vec<u8>) requires n <= isize::MAX ensures b@.len() == n { unimplemented!() }
/// an output stream: what was put on the wire, and whether it is free of I/O errors
#[verifier::external_body]
struct VxWrite { x: u8 }
impl VxWrite {
    uninterp spec fn done(&self) -> Seq<u8>;
    uninterp spec fn flushed(&self) -> bool;
    uninterp spec fn sound(&self) -> bool;
    #[verifier::external_body]
    fn write_all(&mut self, b: &Vec<u8>) -> (r: Result<(), IoErr>)
        ensures final(self).sound() == old(self).sound(), old(self).sound() ==> r is Ok,
            r is Ok ==> final(self).done() == old(self).done() + b@ && (b@.len() == 0 ==> final(self).flushed() == old(self).flushed()),
    { unimplemented!() }
    /// takes some of the bytes
    #[verifier::external_body]
    fn write(&mut self, b: &Vec<u8>) -> (r: Result<usize, IoErr>)
        ensures final(self).sound() == old(self).sound(),
            r is Ok ==> 0 <= r->Ok_0 <= b@.len() && final(self).done() == old(self).done() + b@.take(r->Ok_0 as int),
            r is Ok && b@.len() == 0 ==> final(self).flushed() == old(self).flushed(),
    { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), IoErr>)
        ensures final(self).sound() == old(self).sound(), old(self).sound() ==> r is Ok, r is Ok ==> final(self).done() == old(self).done() && final(self).flushed() { unimplemented!() }
}
/// `write!` with one number
spec fn fmt1(f: Seq<u8>, n: int) -> Seq<u8> {
    match find(f, seq![123u8, 125u8], 0) { Some(i) => f.take(i) + digits(n) + f.skip(i + 2), None => f }
}
#[verifier::external_body]
fn vx_write(out: &mut VxWrite, f: &str, n: usize) -> (r: Result<(), IoErr>)
    ensures final(out).sound() == old(out).sound(), old(out).sound() ==> r is Ok,
        r is Ok ==> final(out).done() == old(out).done() + fmt1(lit(f), n as int),
{ unimplemented!() }

// ---- what the protocol says ----------------------------------------------------------
enum Parsed { Closed, Bad, Frame { text: Seq<u8>, rest: Seq<u8> } }
spec fn crlf() -> Seq<u8> { seq![13u8, 10u8] }
spec fn sep() -> Seq<u8> { seq![58u8, 32u8] }
spec fn clen() -> Seq<u8> { seq![67u8, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104] }
/// the next frame of a byte stream, `size` being the last content length seen
spec fn frame(s: Seq<u8>, size: Option<int>) -> Parsed
    decreases s.len()
{
    let line = first_line(s);
    if line.len() == 0 { Parsed::Closed }
    else if !is_utf8(line) || !ends(line, crlf()) { Parsed::Bad }
    else {
        let h = line.take(line.len() - 2);
        let rest = s.skip(line.len() as int);
        if h.len() == 0 {
            match size { None => Parsed::Bad, Some(n) => body(rest, n) }
        } else {
            match find(h, sep(), 0) {
                None => Parsed::Bad,
                Some(i) => if ieq(h.take(i), clen()) {
                    match parse_usize(h.skip(i + 2)) { None => Parsed::Bad, Some(n) => if rest.len() < s.len() { frame(rest, Some(n)) } else { Parsed::Bad } }
                } else if rest.len() < s.len() { frame(rest, size) } else { Parsed::Bad },
            }
        }
    }
}
spec fn body(s: Seq<u8>, n: int) -> Parsed {
    if s.len() < n || !is_utf8(s.take(n)) { Parsed::Bad } else { Parsed::Frame { text: s.take(n), rest: s.skip(n) } }
}
/// what is put on the wire for a text
spec fn framed(t: Seq<u8>) -> Seq<u8> { clen() + sep() + digits(t.len() as int) + crlf() + crlf() + t }

proof fn find_props(a: Seq<u8>, b: Seq<u8>, from: int)
    requires 0 <= from
    ensures
        find(a, b, from) is Some ==> from <= find(a, b, from)->0 && find(a, b, from)->0 + b.len() <= a.len() && at(a, b, find(a, b, from)->0),
    decreases a.len() - from
{
    reveal(find);
    if from + b.len() <= a.len() && !at(a, b, from) { find_props(a, b, from + 1); }
}
proof fn find_is(a: Seq<u8>, b: Seq<u8>, from: int, i: int)
    requires 0 <= from <= i, at(a, b, i), forall|j: int| from <= j < i ==> !at(a, b, j)
    ensures find(a, b, from) == Some(i)
    decreases i - from
{
    reveal(find);
    if from < i { find_is(a, b, from + 1, i); }
}
proof fn lits()
    ensures
        lit("\r\n") == crlf(), lit(": ") == sep(), lit("Content-Length") == clen(),
        forall|n: int| fmt1(lit("Content-Length: {}\r\n\r\n"), n) == clen() + sep() + digits(n) + crlf() + crlf(),
{
    reveal_strlit("\r\n"); reveal_strlit(": "); reveal_strlit("Content-Length"); reveal_strlit("Content-Length: {}\r\n\r\n");
    assert(lit("\r\n") =~= crlf());
    assert(lit(": ") =~= sep());
    assert(lit("Content-Length") =~= clen());
    let f = lit("Content-Length: {}\r\n\r\n");
    assert(f =~= clen() + sep() + seq![123u8, 125u8] + crlf() + crlf());
    assert forall|j: int| 0 <= j < 16 implies !at(f, seq![123u8, 125u8], j) by {
        assert(f[j] != 123u8);
        if at(f, seq![123u8, 125u8], j) { assert(f.subrange(j, j + 2)[0] == seq![123u8, 125u8][0]); }
    }
    assert(at(f, seq![123u8, 125u8], 16));
    find_is(f, seq![123u8, 125u8], 0, 16);
    assert forall|n: int| fmt1(f, n) == clen() + sep() + digits(n) + crlf() + crlf() by {
        assert(fmt1(f, n) =~= clen() + sep() + digits(n) + crlf() + crlf());
    }
}
proof fn line_props(s: Seq<u8>)
    ensures first_line(s).len() <= s.len(), first_line(s).len() == 0 <==> s.len() == 0
{
    find_props(s, seq![10u8], 0);
}

//@fn crates/sync-lsp/src/msg.rs read_msg_text C01 C02
//@ret r
//@entry
    proof { lits(); }
    broadcast use axiom_vstr;
    let ghost s0 = inp.rest();
//@spec
ensures
    final(inp).sound() == old(inp).sound(),
    old(inp).sound() ==> match frame(old(inp).rest(), None) {
        Parsed::Closed => r is Ok && r->Ok_0 is None,
        Parsed::Bad => r is Err,
        Parsed::Frame { text, rest } => r is Ok && r->Ok_0 is Some && (r->Ok_0->0)@ == text && final(inp).rest() == rest,
    },
//@loop 0 loop
    invariant_except_break
        inp.sound() ==> frame(inp.rest(), match size { Some(n) => Some(n as int), None => None }) == frame(old(inp).rest(), None),
    invariant
        inp.sound() == old(inp).sound(),
    ensures
        inp.sound() ==> frame(old(inp).rest(), None) == (match size { None => Parsed::Bad, Some(n) => body(inp.rest(), n as int) }),
    decreases inp.rest().len(),
//@loopstart 0
    proof { lits(); axiom_ascii(Seq::<u8>::empty()); line_props(inp.rest()); let l = first_line(inp.rest()); if l.len() == 0 { assert(l =~= Seq::<u8>::empty()); }
        if ends(l, crlf()) { assert(l.skip(l.len() - 2)[0] == crlf()[0]); find_props(l.take(l.len() - 2), sep(), 0); } }
//@end

//@fn crates/sync-lsp/src/msg.rs write_msg_text C01
//@ret r
//@entry
    proof { lits(); }
//@spec
ensures
    final(out).sound() == old(out).sound(),
    old(out).sound() ==> r is Ok,
    r is Ok ==> final(out).done() == old(out).done() + framed(msg@) && final(out).flushed(),
//@end

// ---- round trip --------------------------------------------------------------------------
proof fn digits_props(n: int)
    requires n >= 0
    ensures all_digits(digits(n)), digits_val(digits(n)) == n
    decreases n
{
    reveal_with_fuel(digits_val, 2);
    if n >= 10 {
        digits_props(n / 10);
        assert(digits(n).drop_last() =~= digits(n / 10));
    } else {
        assert(digits(n).drop_last() =~= Seq::<u8>::empty());
    }
}
proof fn line_of(l: Seq<u8>, rest: Seq<u8>)
    requires forall|i: int| 0 <= i < l.len() ==> l[i] != 10u8
    ensures first_line(l + crlf() + rest) == l + crlf()
{
    let s = l + crlf() + rest;
    let i = l.len() as int + 1;
    assert(s[i] == 10u8);
    assert(at(s, seq![10u8], i));
    assert forall|j: int| 0 <= j < i implies !at(s, seq![10u8], j) by {
        assert(s[j] != 10u8);
        if at(s, seq![10u8], j) { assert(s.subrange(j, j + 1)[0] == seq![10u8][0]); }
    }
    find_is(s, seq![10u8], 0, i);
    assert(s.take(i + 1) =~= l + crlf());
}
/// one header line
proof fn one_header(l: Seq<u8>, rest: Seq<u8>, i: int, n: int, size: Option<int>)
    requires
        l.len() > 0, is_utf8(l + crlf()), forall|j: int| 0 <= j < l.len() ==> l[j] != 10u8,
        find(l, sep(), 0) == Some(i), ieq(l.take(i), clen()), parse_usize(l.skip(i + 2)) == Some(n),
    ensures frame(l + crlf() + rest, size) == frame(rest, Some(n))
{
    let s = l + crlf() + rest;
    line_of(l, rest);
    let l1 = l + crlf();
    assert(l1.skip(l1.len() - 2) =~= crlf());
    assert(l1.take(l1.len() - 2) =~= l);
    assert(s.skip(l1.len() as int) =~= rest);
}
/// the empty line
proof fn empty_line(rest: Seq<u8>, n: int)
    ensures frame(crlf() + rest, Some(n)) == body(rest, n)
{
    let e = Seq::<u8>::empty();
    assert(e + crlf() + rest =~= crlf() + rest);
    line_of(e, rest);
    assert(e + crlf() =~= crlf());
    axiom_ascii(crlf());
    assert(crlf().skip(0) =~= crlf());
    assert((crlf() + rest).skip(2) =~= rest);
}
/// what is written for a text is read back as that text, whatever follows (C01)
proof fn round_trip(t: Seq<u8>, rest: Seq<u8>)
    requires is_utf8(t), t.len() <= usize::MAX
    ensures frame(framed(t) + rest, None) == (Parsed::Frame { text: t, rest })
{
    let d = digits(t.len() as int);
    digits_props(t.len() as int);
    let h = clen() + sep() + d;
    let tail = crlf() + (t + rest);
    let s = framed(t) + rest;
    assert(s =~= h + crlf() + tail);
    assert forall|i: int| 0 <= i < h.len() implies h[i] != 10u8 && h[i] < 128 by {
        if i >= 16 { assert(h[i] == d[i - 16]); assert(is_digit(d[i - 16])); }
    }
    axiom_ascii(h + crlf());
    assert(at(h, sep(), 14));
    assert forall|j: int| 0 <= j < 14 implies !at(h, sep(), j) by {
        assert(h[j] != 58u8);
        if at(h, sep(), j) { assert(h.subrange(j, j + 2)[0] == sep()[0]); }
    }
    find_is(h, sep(), 0, 14);
    assert(h.take(14) =~= clen());
    assert(h.skip(16) =~= d);
    assert(d[0] != 43u8) by { assert(is_digit(d[0])); }
    one_header(h, tail, 14, t.len() as int, None);
    empty_line(t + rest, t.len() as int);
    assert((t + rest).take(t.len() as int) =~= t);
    assert((t + rest).skip(t.len() as int) =~= rest);
}
/// the texts a stream gives until it is closed; None if it goes wrong
spec fn texts(s: Seq<u8>) -> Option<Seq<Seq<u8>>>
    decreases s.len()
{
    match frame(s, None) {
        Parsed::Closed => Some(Seq::empty()),
        Parsed::Bad => None,
        Parsed::Frame { text, rest } => if rest.len() < s.len() {
            match texts(rest) { Some(ts) => Some(seq![text] + ts), None => None }
        } else { None },
    }
}
spec fn wire(ts: Seq<Seq<u8>>) -> Seq<u8>
    decreases ts.len()
{ if ts.len() == 0 { Seq::empty() } else { framed(ts[0]) + wire(ts.drop_first()) } }
/// any sequence of texts written is read back as exactly that sequence, then a clean end (C01)
proof fn all_round_trip(ts: Seq<Seq<u8>>)
    requires forall|i: int| 0 <= i < ts.len() ==> is_utf8(#[trigger] ts[i]) && ts[i].len() <= usize::MAX
    ensures texts(wire(ts)) == Some(ts)
    decreases ts.len()
{
    if ts.len() == 0 {
        line_props(wire(ts));
    } else {
        all_round_trip(ts.drop_first());
        round_trip(ts[0], wire(ts.drop_first()));
        assert(framed(ts[0]).len() > 0);
        assert(seq![ts[0]] + ts.drop_first() =~= ts);
    }
}

// ---- messages -------------------------------------------------------------------------------
/// a message of either protocol; its JSON text is serde's business (assumed)
#[verifier::external_body]
struct Message { x: u8 }
uninterp spec fn msg_of(t: Seq<u8>) -> Option<Message>;
uninterp spec fn text_of(m: Message) -> Seq<u8>;
uninterp spec fn encodes(m: Message) -> bool;
#[verifier::external_body]
fn vx_decode(t: &VStr) -> (r: Result<Message, IoErr>) ensures r is Ok <==> msg_of(t@) is Some, r is Ok ==> r->Ok_0 == msg_of(t@)->0 { unimplemented!() }
#[verifier::external_body]
fn vx_encode(m: Message) -> (r: Result<VStr, IoErr>) ensures r is Ok <==> encodes(m), r is Ok ==> (r->Ok_0)@ == text_of(m) { unimplemented!() }
spec fn read_ok(i: VxRead, n: VxRead, r: Result<Option<Message>, IoErr>) -> bool {
    i.sound() ==> match frame(i.rest(), None) {
        Parsed::Closed => r is Ok && r->Ok_0 is None,
        Parsed::Bad => r is Err,
        Parsed::Frame { text, rest } => match msg_of(text) {
            Some(m) => r is Ok && r->Ok_0 == Some(m) && n.rest() == rest,
            None => r is Err,
        },
    }
}
impl Message {
    //@fn crates/sync-lsp/src/lsp.rs Message::_read as lsp_read_ C01 C02
    //@ret res
    ensures read_ok(*old(r), *final(r), res),
    //@end
    //@fn crates/sync-lsp/src/dap.rs Message::_read as dap_read_ C01 C02
    //@ret res
    ensures read_ok(*old(r), *final(r), res),
    //@end
    //@fn crates/sync-lsp/src/lsp.rs Message::_write as lsp_write_ C01
    //@ret r
    ensures
        old(w).sound() ==> (r is Ok <==> encodes(self)),
        r is Ok ==> final(w).done() == old(w).done() + framed(text_of(self)) && final(w).flushed(),
        !encodes(self) ==> *final(w) == *old(w),
    //@end
    //@fn crates/sync-lsp/src/dap.rs Message::_write as dap_write_ C01
    //@ret r
    ensures
        old(w).sound() ==> (r is Ok <==> encodes(self)),
        r is Ok ==> final(w).done() == old(w).done() + framed(text_of(self)) && final(w).flushed(),
        !encodes(self) ==> *final(w) == *old(w),
    //@end
}
}
fn main() {}
