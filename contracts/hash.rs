// Unit: fingerprint codecs (C08). Text is a sequence of bytes here.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@rw type String => VStr
//@rw type std::string::String => VStr
//@rw type &'static str => &VStr
//@rw type &str => &VStr
//@rw type Result<Self> => Result<Self, VxErr>
//@macro bail => vx_bail($args)
//@rw expr vx_bail($_list) => return Err(vx_err())
//@rw expr base64::engine::general_purpose::STANDARD_NO_PAD => vx_b64()
//@rw expr $r.map_err(map_string_err($m)) => vx_map_err($r)
//@rw expr $x.context($m) => vx_map_err($x)
//@rw expr $x.iter().rev().skip_while(|&&b| b == 0).count() => vx_rtrim(&$x)
//@rw expr &$b[..$e] => vx_to(&$b, $e)
//@rw expr &$b[$e..] => vx_from(&$b, $e)
//@rw expr $h.last() == Some(&0) => vx_last0(&$h)
//@rw expr $h.resize($n, 0) => vx_resize(&mut $h, $n)
//@rw expr u64::from_le_bytes($x.try_into().unwrap()) => vx_from_le($x)
//@rw expr $x.to_le_bytes() => vx_to_le($x)
//@rw expr [$a, $b].join("") => vx_join2($a, $b)
//@rw expr [$a, $b, $c].join("") => vx_join3($a, $b, $c)
//@rw expr self.as_svg_id("") => self.as_svg_id(vx_empty())
//@rw expr <VStr as serde::Deserialize>::deserialize($d) => $d.vx_string()
//@rw expr serde::de::Error::custom($e) => vx_de_err($e)
//@rw expr D::Error::custom($e) => vx_de_err($e)
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
verus! {
uninterp spec fn vx_vac(k: int) -> bool;
#[verifier::external_body]
#[derive(Debug)]
struct VxErr { x: u8 }
#[verifier::external_body]
fn vx_err() -> (r: VxErr) { unimplemented!() }
#[verifier::external_body]
fn vx_map_err<T, E>(x: Result<T, E>) -> (r: Result<T, VxErr>)
    ensures r is Ok <==> x is Ok, r is Ok ==> r->Ok_0 == x->Ok_0 { unimplemented!() }
// ---- text and bytes ---------------------------------------------------------------
#[verifier::external_body]
struct VStr { x: u8 }
impl View for VStr { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl VStr {
    #[verifier::external_body]
    fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
#[verifier::external_body]
fn vx_empty() -> (r: &'static VStr) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
#[verifier::external_body]
fn vx_join2(a: &VStr, b: &VStr) -> (r: VStr) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
fn vx_join3(a: &VStr, b: &VStr, c: &VStr) -> (r: VStr) ensures r@ == a@ + b@ + c@ { unimplemented!() }
#[verifier::external_body]
fn vx_to<B: VxBytes>(b: &B, n: usize) -> (r: &[u8]) requires n <= b.vb().len() ensures r@ == b.vb().take(n as int) { unimplemented!() }
#[verifier::external_body]
fn vx_from<B: VxBytes>(b: &B, n: usize) -> (r: &[u8]) requires n <= b.vb().len() ensures r@ == b.vb().skip(n as int) { unimplemented!() }
#[verifier::external_body]
fn vx_last0(b: &Vec<u8>) -> (r: bool) ensures r == (b@.len() > 0 && b@.last() == 0) { unimplemented!() }
#[verifier::external_body]
fn vx_resize(b: &mut Vec<u8>, n: usize)
    ensures final(b)@ == (if n <= old(b)@.len() { old(b)@.take(n as int) } else { old(b)@ + Seq::new((n - old(b)@.len()) as nat, |i: int| 0u8) }) { unimplemented!() }
trait VxBytes { spec fn vb(&self) -> Seq<u8>; }
impl VxBytes for [u8; 8] { spec fn vb(&self) -> Seq<u8> { self@ } }
impl VxBytes for Vec<u8> { spec fn vb(&self) -> Seq<u8> { self@ } }
impl<'a> VxBytes for &'a [u8] { spec fn vb(&self) -> Seq<u8> { (*self)@ } }
impl<'a> VxBytes for &'a Vec<u8> { spec fn vb(&self) -> Seq<u8> { (*self)@ } }
/// the text without its trailing zeros
spec fn rtrim(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{ if s.len() > 0 && s.last() == 0 { rtrim(s.drop_last()) } else { s } }
#[verifier::external_body]
fn vx_rtrim<B: VxBytes>(b: &B) -> (r: usize) ensures r == rtrim(b.vb()).len() { unimplemented!() }
/// little-endian bytes: a one to one correspondence (assumed of std)
uninterp spec fn le(x: u64) -> Seq<u8>;
uninterp spec fn unle(s: Seq<u8>) -> u64;
broadcast axiom fn axiom_le(x: u64) ensures (#[trigger] le(x)).len() == 8, unle(le(x)) == x, (x == 0 <==> le(x) =~= zeros(8));
broadcast axiom fn axiom_unle(s: Seq<u8>) requires s.len() == 8 ensures le(#[trigger] unle(s)) == s;
spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
#[verifier::external_body]
fn vx_to_le(x: u64) -> (r: [u8; 8]) ensures r@ == le(x) { unimplemented!() }
#[verifier::external_body]
fn vx_from_le(b: Vec<u8>) -> (r: u64) requires b@.len() == 8 ensures r == unle(b@) { unimplemented!() }
// ---- base64 without padding: canonical, so one text per byte string (assumed of the base64 crate) ------------------
uninterp spec fn b64(s: Seq<u8>) -> Seq<u8>;
broadcast axiom fn axiom_b64(s: Seq<u8>) ensures (#[trigger] b64(s)).len() == (4 * s.len() + 2) / 3;
axiom fn axiom_b64_inj(s: Seq<u8>, t: Seq<u8>) requires b64(s) == b64(t) ensures s == t;
#[verifier::external_body]
struct Engine { x: u8 }
#[verifier::external_body]
fn vx_b64() -> (r: Engine) { unimplemented!() }
impl Engine {
    #[verifier::external_body]
    fn encode<B: VxBytes>(&self, b: B) -> (r: VStr) ensures r@ == b64(b.vb()) { unimplemented!() }
    #[verifier::external_body]
    fn decode<B: VxBytes>(&self, t: B) -> (r: Result<Vec<u8>, VxErr>)
        ensures r is Ok <==> (exists|s: Seq<u8>| #[trigger] b64(s) == t.vb()), r is Ok ==> b64((r->Ok_0)@) == t.vb() { unimplemented!() }
}
// ---- serde -------------------------------------------------------------------------------
trait VxSer: Sized {
    type Ok;
    type Error;
    /// what serializing a text gives
    spec fn text(&self, s: Seq<u8>) -> Result<Self::Ok, Self::Error>;
    fn serialize_str(self, s: &VStr) -> (r: Result<Self::Ok, Self::Error>) ensures r == self.text(s@);
}
trait VxDe: Sized {
    type Error;
    /// the text the input holds, if it holds one
    spec fn text(&self) -> Option<Seq<u8>>;
    fn vx_string(self) -> (r: Result<VStr, Self::Error>) ensures r is Ok <==> self.text() is Some, r is Ok ==> (r->Ok_0)@ == self.text()->0;
}
#[verifier::external_body]
fn vx_de_err<E>(x: VxErr) -> (r: E) { unimplemented!() }

// ---- fingerprints ------------------------------------------------------------------------
//@type crates/tinymist-std/src/hash.rs Fingerprint #[derive(Clone,Copy)]
/// the integer a fingerprint stands for
spec fn num(f: Fingerprint) -> int { f.hi * 0x1_0000_0000_0000_0000 + f.lo }
/// the text a fingerprint stands for
spec fn txt(f: Fingerprint) -> Seq<u8> { b64(le(f.lo)) + (if f.hi == 0 { Seq::empty() } else { b64(rtrim(le(f.hi))) }) }

proof fn rtrim_facts(s: Seq<u8>)
    ensures rtrim(s).len() <= s.len(), s == rtrim(s) + zeros((s.len() - rtrim(s).len()) as nat), rtrim(s).len() == 0 || rtrim(s).last() != 0
    decreases s.len()
{
    if s.len() > 0 && s.last() == 0 {
        let d = s.drop_last();
        rtrim_facts(d);
        let k = (d.len() - rtrim(d).len()) as nat;
        assert(s =~= d.push(0));
        assert((rtrim(d) + zeros(k)).push(0) =~= rtrim(d) + zeros(k + 1));
        assert(s =~= rtrim(s) + zeros((s.len() - rtrim(s).len()) as nat));
    } else {
        assert(s =~= rtrim(s) + zeros(0));
    }
}
proof fn rtrim_unique(t: Seq<u8>, n: nat)
    requires t.len() == 0 || t.last() != 0
    ensures rtrim(t + zeros(n)) == t
    decreases n
{
    if n > 0 {
        assert((t + zeros(n)).last() == 0);
        assert((t + zeros(n)).drop_last() =~= t + zeros((n - 1) as nat));
        rtrim_unique(t, (n - 1) as nat);
    } else {
        assert(t + zeros(0) =~= t);
    }
}
/// a text is the encoding of the fingerprint that its two parts decode to
proof fn decode_facts(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires s.len() >= 11, b64(a) == s.take(11), b64(b) == s.skip(11), b.len() <= 8, b.len() == 0 || b.last() != 0
    ensures a.len() == 8, s == txt(Fingerprint { lo: unle(a), hi: unle(b + zeros((8 - b.len()) as nat)) })
{
    broadcast use axiom_b64, axiom_le, axiom_unle;
    let full = b + zeros((8 - b.len()) as nat);
    assert(a.len() == 8) by { assert(b64(a).len() == 11); }
    rtrim_unique(b, (8 - b.len()) as nat);
    assert(s =~= s.take(11) + s.skip(11));
    if unle(full) == 0 {
        assert(full == le(unle(full)));
        assert(full =~= zeros(8));
        if b.len() > 0 { assert(full[b.len() - 1] == b.last()); }
        assert(s.skip(11).len() == 0) by { assert(b64(b).len() == 0); }
        assert(s.skip(11) =~= Seq::<u8>::empty());
    }
}
/// a text that is an encoding has the shape the decoder asks for
proof fn shape(f: Fingerprint, s: Seq<u8>)
    requires s == txt(f)
    ensures s.len() >= 11, s.take(11) == b64(le(f.lo)), s.skip(11) == b64(rtrim(le(f.hi))), rtrim(le(f.hi)).len() <= 8,
        rtrim(le(f.hi)).len() == 0 || rtrim(le(f.hi)).last() != 0,
        le(f.hi) == rtrim(le(f.hi)) + zeros((8 - rtrim(le(f.hi)).len()) as nat)
{
    broadcast use axiom_b64, axiom_le;
    rtrim_facts(le(f.hi));
    assert(b64(le(f.lo)).len() == 11);
    assert(s.take(11) =~= b64(le(f.lo)));
    if f.hi == 0 {
        rtrim_unique(Seq::<u8>::empty(), 8);
        assert(Seq::<u8>::empty() + zeros(8) =~= zeros(8));
        assert(b64(rtrim(le(f.hi))).len() == 0);
        assert(s.skip(11) =~= b64(rtrim(le(f.hi))));
    } else {
        assert(s.skip(11) =~= b64(rtrim(le(f.hi))));
    }
}
/// distinct fingerprints have distinct texts and distinct numbers
proof fn txt_injective(f: Fingerprint, g: Fingerprint)
    requires txt(f) == txt(g)
    ensures f == g
{
    broadcast use axiom_le;
    shape(f, txt(f));
    shape(g, txt(g));
    axiom_b64_inj(le(f.lo), le(g.lo));
    axiom_b64_inj(rtrim(le(f.hi)), rtrim(le(g.hi)));
    assert(unle(le(f.lo)) == unle(le(g.lo)));
    assert(unle(le(f.hi)) == unle(le(g.hi)));
}
proof fn num_injective(f: Fingerprint, g: Fingerprint)
    requires num(f) == num(g)
    ensures f == g
{
}
proof fn decoded(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires s.len() >= 11, b64(a) == s.take(11), b64(b) == s.skip(11)
    ensures (exists|f: Fingerprint| txt(f) == s) <==> (b.len() <= 8 && (b.len() == 0 || b.last() != 0)), a.len() == 8
{
    broadcast use axiom_b64;
    assert(b64(a).len() == 11);
    if b.len() <= 8 && (b.len() == 0 || b.last() != 0) {
        decode_facts(s, a, b);
    } else if exists|f: Fingerprint| txt(f) == s {
        let f = choose|f: Fingerprint| txt(f) == s;
        shape(f, s);
        axiom_b64_inj(b, rtrim(le(f.hi)));
    }
}

impl Fingerprint {
    //@fn crates/tinymist-std/src/hash.rs Fingerprint::from_pair C08
    //@ret r
    ensures r.lo == lo, r.hi == hi,
    //@end
    //@fn crates/tinymist-std/src/hash.rs Fingerprint::from_u128 C08
    //@ret r
    //@entry
        assert((hash >> 64) as u64 * 0x1_0000_0000_0000_0000u128 + (hash as u64) as u128 == hash && (hash >> 64) <= 0xffff_ffff_ffff_ffff) by (bit_vector);
    //@spec
    ensures num(r) == hash,
    //@end
    //@fn crates/tinymist-std/src/hash.rs Fingerprint::to_u128 C08
    //@ret r
    //@entry
        let ghost (lo_, hi_) = (self.lo, self.hi);
        assert((((hi_ as u128) << 64) | lo_ as u128) == hi_ as u128 * 0x1_0000_0000_0000_0000u128 + lo_ as u128) by (bit_vector);
        assert(((lo_ as u128) | ((hi_ as u128) << 64)) == hi_ as u128 * 0x1_0000_0000_0000_0000u128 + lo_ as u128) by (bit_vector);
    //@spec
    ensures r == num(self),
    //@end
    //@fn crates/tinymist-std/src/hash.rs Fingerprint::lower32 C08 C09
    //@ret r
    ensures r == self.lo as u32,
    //@end
    //@fn crates/tinymist-std/src/hash.rs Fingerprint::as_svg_id C08
    //@ret r
    //@entry
        proof { broadcast use axiom_le; rtrim_facts(le(self.hi)); }
        assert forall|s: Seq<u8>, n: int| 0 <= n <= s.len() && n == rtrim(s).len() implies #[trigger] s.take(n) == rtrim(s) by {
            rtrim_facts(s);
            assert(s.take(n) =~= rtrim(s));
        }
        assert(prefix@ + b64(le(self.lo)) + Seq::<u8>::empty() =~= prefix@ + b64(le(self.lo)));
        assert(prefix@ + b64(le(self.lo)) + b64(rtrim(le(self.hi))) =~= prefix@ + (b64(le(self.lo)) + b64(rtrim(le(self.hi)))));
    //@spec
    ensures r@ == prefix@ + txt(self),
    //@end
    //@fn crates/tinymist-std/src/hash.rs Fingerprint::try_from_str C08
    //@ret r
    //@entry
        proof { broadcast use axiom_b64, axiom_le, axiom_unle; }
        assert forall|f: Fingerprint| #[trigger] txt(f) == s@ implies s@.len() >= 11 && b64(le(f.lo)) == s@.take(11) && b64(rtrim(le(f.hi))) == s@.skip(11) by { shape(f, s@); }
        assert forall|a: Seq<u8>, b: Seq<u8>| s@.len() >= 11 && #[trigger] b64(a) == s@.take(11) && #[trigger] b64(b) == s@.skip(11)
            implies ((exists|f: Fingerprint| txt(f) == s@) <==> (b.len() <= 8 && (b.len() == 0 || b.last() != 0))) && a.len() == 8 by { decoded(s@, a, b); }
        assert forall|a: Seq<u8>, b: Seq<u8>| s@.len() >= 11 && #[trigger] b64(a) == s@.take(11) && #[trigger] b64(b) == s@.skip(11) && b.len() <= 8 && (b.len() == 0 || b.last() != 0)
            implies s@ == txt(Fingerprint { lo: unle(a), hi: unle(b + zeros((8 - b.len()) as nat)) }) by { decode_facts(s@, a, b); }
        assert forall|b: Seq<u8>| b.len() == 8 implies #[trigger] b.take(8) == b && b + zeros(0) == b by { assert(b.take(8) =~= b); assert(b + zeros(0) =~= b); }
    //@spec
    // exactly the encodings decode, and to the fingerprint they encode
    ensures r is Ok <==> (exists|f: Fingerprint| txt(f) == s@), r is Ok ==> txt(r->Ok_0) == s@,
    //@end
    //@fn crates/tinymist-std/src/hash.rs Serialize@Fingerprint::serialize C08
    //@sig fn serialize<S: VxSer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>)
    //@entry
        assert(Seq::<u8>::empty() + txt(*self) =~= txt(*self));
    //@spec
    ensures r == serializer.text(txt(*self)),
    //@end
    //@fn crates/tinymist-std/src/hash.rs Deserialize@Fingerprint::deserialize C08
    //@sig fn deserialize<D: VxDe>(deserializer: D) -> (r: Result<Self, D::Error>)
    ensures
        r is Ok <==> deserializer.text() is Some && (exists|f: Fingerprint| txt(f) == deserializer.text()->0),
        r is Ok ==> txt(r->Ok_0) == deserializer.text()->0,
    //@end
}
/// both codecs round trip: the contracts above and injectivity leave no other outcome
proof fn round_trips(f: Fingerprint, g: Fingerprint)
    ensures txt(f) == txt(g) <==> f == g, num(f) == num(g) <==> f == g
{
    if txt(f) == txt(g) { txt_injective(f, g); }
    if num(f) == num(g) { num_injective(f, g); }
}
}
fn main() {}
