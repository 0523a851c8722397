uninterp spec fn vx_vac(k: int) -> bool;
fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
fn vx_panic<T>() -> T requires false { unimplemented!() }
/// texts as sequences of characters
trait VxText { spec fn txt(&self) -> Seq<char>; }
impl VxText for str { spec fn txt(&self) -> Seq<char> { self@ } }
impl VxText for char { spec fn txt(&self) -> Seq<char> { seq![*self] } }
impl VxText for VString { spec fn txt(&self) -> Seq<char> { self@ } }
impl<T: VxText + ?Sized> VxText for &T { spec fn txt(&self) -> Seq<char> { (**self).txt() } }
#[verifier::external_body]
fn vx_eq<A: VxText, B: VxText>(a: &A, b: &B) -> (r: bool) ensures r == (a.txt() == b.txt()) { unimplemented!() }
broadcast proof fn one_char(a: char, b: char)
    ensures #![trigger seq![a], seq![b]] seq![a] == seq![b] <==> a == b
{
    if seq![a] == seq![b] { assert(seq![a][0] == seq![b][0]); }
}
/// std's String
#[verifier::external_body]
struct VString { s: std::string::String }
impl VString {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body]
    fn push_str<T: VxText + ?Sized>(&mut self, t: &T) ensures final(self)@ == old(self)@ + t.txt() { unimplemented!() }
    #[verifier::external_body]
    fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: VString) ensures r == self { unimplemented!() }
}
