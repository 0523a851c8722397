// ---- stand-ins for std (assumed contracts) ----------------------------------------------
#[verifier::external_body]
struct VStr { x: u8 }
impl View for VStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VStr {
    #[verifier::external_body]
    fn new() -> (r: VStr) ensures r@ =~= Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body]
    fn push_str<T: VxText + ?Sized>(&mut self, s: &T) ensures final(self)@ == old(self)@ + s.chars_() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) { unimplemented!() }
}
trait VxText { spec fn chars_(&self) -> Seq<char>; }
impl VxText for VStr { spec fn chars_(&self) -> Seq<char> { self@ } }
impl VxText for str { spec fn chars_(&self) -> Seq<char> { self@ } }
/// a name (names are assumed to be valid Unicode)
#[verifier::external_body]
struct OsStr { x: u8 }
impl View for OsStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl OsStr {
    #[verifier::external_body]
    fn vx_text(&self) -> (r: VStr) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
struct PrefixComponent<'a> { x: &'a u8 }
impl<'a> PrefixComponent<'a> {
    #[verifier::external_body]
    fn as_os_str(&self) -> (r: &'a OsStr) { unimplemented!() }
}
#[derive(Clone, Copy)]
enum Component<'a> { Prefix(PrefixComponent<'a>), RootDir, CurDir, ParentDir, Normal(&'a OsStr) }
impl<'a> Component<'a> {
    spec fn c(&self) -> Comp {
        match *self { Component::Prefix(_) => Comp::Prefix, Component::RootDir => Comp::RootDir, Component::CurDir => Comp::CurDir, Component::ParentDir => Comp::ParentDir, Component::Normal(n) => Comp::Normal(n@) }
    }
    #[verifier::external_body]
    fn as_os_str(&self) -> (r: &'a OsStr)
        ensures r@ == (match self.c() { Comp::RootDir => seq!['/'], Comp::CurDir => dot(), Comp::ParentDir => dotdot(), Comp::Normal(n) => n, Comp::Prefix => r@ }) { unimplemented!() }
}
/// an iterator over components; `all` and `k`: what it started with and how far it is
struct Components<'a> { ghost all: Seq<Comp>, ghost k: int, x: core::marker::PhantomData<&'a u8> }
impl<'a> Components<'a> {
    spec fn wf(&self) -> bool { 0 <= self.k <= self.all.len() }
    fn peekable(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    fn peek(&mut self) -> (r: Option<&Component<'a>>)
        requires old(self).wf()
        ensures *final(self) == *old(self), r is Some <==> old(self).k < old(self).all.len(), r is Some ==> r->0.c() == old(self).all[old(self).k] { unimplemented!() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Component<'a>>)
        requires old(self).wf()
        ensures final(self).all == old(self).all, final(self).wf(), r is Some <==> old(self).k < old(self).all.len(),
            r is Some ==> r->0.c() == old(self).all[old(self).k] && final(self).k == old(self).k + 1, r is None ==> final(self).k == old(self).k { unimplemented!() }
    fn vx_next(&mut self) -> (r: Option<Component<'a>>)
        requires old(self).wf()
        ensures final(self).all == old(self).all, final(self).wf(), r is Some <==> old(self).k < old(self).all.len(),
            r is Some ==> r->0.c() == old(self).all[old(self).k] && final(self).k == old(self).k + 1, r is None ==> final(self).k == old(self).k { self.next() }
}
fn vx_into_iter<'a>(c: Components<'a>) -> (r: Components<'a>) ensures r == c { c }
#[verifier::external_body]
fn vx_prefix_of<'a>(c: Option<&Component<'a>>) -> (r: Option<Component<'a>>)
    ensures r is Some <==> c is Some && (c->0).c() is Prefix, r is Some ==> r->0 == *(c->0) { unimplemented!() }
#[verifier::external_body]
struct Path { x: u8 }
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Path {
    #[verifier::external_body]
    fn components(&self) -> (r: Components<'_>) ensures r.all == comps(self@), r.k == 0 { unimplemented!() }
    #[verifier::external_body]
    fn as_os_str(&self) -> (r: &OsStr) { unimplemented!() }
    /// appending a component's text; an absolute one replaces the path
    #[verifier::external_body]
    fn push(&mut self, s: &OsStr)
        requires name_ok(s@) || s@ =~= seq!['/'],
        ensures comps(final(self)@) == (if s@ =~= seq!['/'] { seq![Comp::RootDir] } else { comps(old(self)@) + seg(s@) }) { unimplemented!() }
    #[verifier::external_body]
    fn pop(&mut self) -> (r: bool) ensures comps(final(self)@) == up(comps(old(self)@)) { unimplemented!() }
    #[verifier::external_body]
    fn is_relative(&self) -> (r: bool) ensures r == !abs(comps(self@)) { unimplemented!() }
    #[verifier::external_body]
    fn is_absolute(&self) -> (r: bool) ensures r == abs(comps(self@)) { unimplemented!() }
    /// the path-clean crate
    #[verifier::external_body]
    fn clean(&self) -> (r: Path)
        ensures comps(r@) == (if cl(comps(self@)).len() == 0 { seq![Comp::CurDir] } else { cl(comps(self@)) }) { unimplemented!() }
}
#[verifier::external_body]
fn vx_path_new() -> (r: Path) ensures comps(r@) =~= Seq::<Comp>::empty() { unimplemented!() }
#[verifier::external_body]
fn vx_path_from(s: &OsStr) -> (r: Path) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vx_lit_path(s: &str) -> (r: &Path) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vx_dup(p: &Path) -> (r: Path) ensures r@ == p@ { unimplemented!() }
/// paths are the same if their components are
#[verifier::external_body]
fn vx_same(a: &Path, b: &Path) -> (r: bool) ensures r == (comps(a@) == comps(b@)) { unimplemented!() }
#[verifier::external_body]
fn vx_any2(p: &Path, a: Component<'_>, b: Component<'_>) -> (r: bool)
    ensures r == (exists|i: int| 0 <= i < comps(p@).len() && (#[trigger] comps(p@)[i] == a.c() || comps(p@)[i] == b.c())) { unimplemented!() }
proof fn dot_text() ensures comps("."@) =~= seq![Comp::CurDir], comps(""@) =~= Seq::<Comp>::empty(), "."@ =~= dot(), ".."@ =~= dotdot()
{
    reveal_strlit(".");
    reveal_strlit("");
    reveal_strlit("..");
    slash_at("."@, -1);
    slash_facts(""@);
}
