// Unit: resource paths (C25), on Unix; the path functions of tinymist-std by the contracts proved in unit path.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@option fmt_concat
//@rw type String => VStr
//@rw type EcoString => VStr
//@rw type PathBuf => Path
//@rw type fmt::Formatter<$l> => VxFmt
//@rw type fmt::Result => Result<(), FmtErr>
//@rw type Self::Err => &'static str
//@rw expr $x.split($c) => vx_split($x, $c)
//@rw expr $x.splitn(2, $c) => vx_splitn2($x, $c)
//@rw expr $x.split_once($c) => vx_split_once($x, $c)
//@rw expr $x.rsplit_once($c) => vx_rsplit_once($x, $c)
//@rw expr $x.into() => vx_str(&$x)
//@rw expr $x.to_string() => vx_str(&$x)
//@rw expr $x.to_owned() => vx_dup(&$x)
//@rw expr $x.to_path_buf() => vx_dup(&$x)
//@rw expr std::env::current_dir() => vx_cwd()
//@rw expr tinymist_std::path::diff($a, $b) => vx_diff($a, $b)
//@rw expr unix_slash($a) => vx_unix_slash($a)
//@rw expr Path::new($x) => vx_path_of($x)
//@rw expr PathBuf::from($x) => vx_path_new_of($x)
//@rw expr $a.join($b) => vx_join(&$a, &$b)
//@rw expr $x == $y => vx_eq(&$x, &$y)
//@rw expr $x != $y => !vx_eq(&$x, &$y)
use vstd::prelude::*;
use vstd::string::*;
verus! {
uninterp spec fn vx_vac(k: int) -> bool;
fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }
//@include path_theory.rs
struct FmtErr { x: u8 }
#[verifier::external_body]
struct VxFmt { s: std::string::String }
impl VxFmt {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn vx_write_fmt(&mut self, s: VStr) -> (r: Result<(), FmtErr>) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: Result<(), FmtErr>) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
}
impl<'a, T: VxText + ?Sized> VxText for &'a T { spec fn chars_(&self) -> Seq<char> { (**self).chars_() } }
#[verifier::external_body]
fn vx_fdisp<T: VxText + ?Sized>(t: &T) -> (r: VStr) ensures r@ == t.chars_() { unimplemented!() }
#[verifier::external_body]
fn vx_str<T: VxText + ?Sized>(t: &T) -> (r: VStr) ensures r@ == t.chars_() { unimplemented!() }
#[verifier::external_body]
fn vx_flit(t: &str) -> (r: VStr) ensures r@ == t@ { unimplemented!() }
#[verifier::external_body]
fn vx_fadd(a: VStr, b: VStr) -> (r: VStr) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
fn vx_eq<A: VxText + ?Sized, B: VxText + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.chars_() == b.chars_()) { unimplemented!() }
/// the text before, and after, the first separator
spec fn cut(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { -1 } else if cut(s.drop_last(), c) >= 0 { cut(s.drop_last(), c) } else if s.last() == c { s.len() - 1 } else { -1 } }
#[verifier::external_body]
fn vx_split_once<'a>(s: &'a str, c: char) -> (r: Option<(&'a str, &'a str)>)
    ensures r is None <==> !s@.contains(c),
        r is Some ==> s@ == (r->0).0@ + seq![c] + (r->0).1@ && !(r->0).0@.contains(c) { unimplemented!() }
#[verifier::external_body]
fn vx_rsplit_once<'a>(s: &'a str, c: char) -> (r: Option<(&'a str, &'a str)>)
    ensures r is None <==> !s@.contains(c),
        r is Some ==> s@ == (r->0).0@ + seq![c] + (r->0).1@ && !(r->0).1@.contains(c) { unimplemented!() }
/// str::split: what is left to give; `left` None when all was given
#[verifier::external_body]
struct VxSplit<'a> { s: core::marker::PhantomData<&'a str> }
impl<'a> VxSplit<'a> {
    uninterp spec fn left(&self) -> Option<Seq<char>>;
    uninterp spec fn by(&self) -> char;
    /// separators still to split at (None: no limit)
    uninterp spec fn lim(&self) -> bool;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a str>)
        ensures final(self).by() == old(self).by(), r is Some <==> old(self).left() is Some,
            old(self).left() is None ==> final(self).left() is None,
            r is Some ==> !(r->0)@.contains(old(self).by()) || old(self).lim() && (r->0)@ == old(self).left()->0,
            r is Some && final(self).left() is None ==> (r->0)@ == old(self).left()->0,
            r is Some && final(self).left() is Some ==> !(r->0)@.contains(old(self).by()) && old(self).left()->0 == (r->0)@ + seq![old(self).by()] + final(self).left()->0,
            final(self).lim() == (old(self).lim() || false),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_split<'a>(s: &'a str, c: char) -> (r: VxSplit<'a>) ensures r.left() == Some(s@), r.by() == c, !r.lim() { unimplemented!() }
/// std's current directory (assumed to be known)
uninterp spec fn cwd() -> Seq<char>;
#[derive(Debug)]
struct IoErr { x: u8 }
#[verifier::external_body]
fn vx_cwd() -> (r: Result<Path, IoErr>) ensures r is Ok, (r->Ok_0)@ == cwd(), abs(comps(cwd())) { unimplemented!() }
/// tinymist_std::path::diff and unix_slash, as proved in unit path
#[verifier::external_body]
fn vx_diff0(fr: &Path, to: &Path) -> (r: Option<Path>)
    ensures r is Some <==> answer(cl(comps(fr@)), cl(comps(to@))) is Some,
        r is Some ==> comps((r->0)@) =~= answer(cl(comps(fr@)), cl(comps(to@)))->0,
        r is Some ==> cl(joined(comps(to@), comps((r->0)@))) =~= cl(comps(fr@)),
        abs(comps(fr@)) && abs(comps(to@)) ==> r is Some { unimplemented!() }
/// (with what follows from it)
fn vx_diff(fr: &Path, to: &Path) -> (r: Option<Path>)
    ensures r is Some ==> cl(joined(comps(to@), comps((r->0)@))) =~= cl(comps(fr@)),
        abs(comps(fr@)) && abs(comps(to@)) ==> r is Some && !abs(comps((r->0)@))
{
    let r = vx_diff0(fr, to);
    proof {
        comps_wf(fr@); comps_wf(to@); cl_canon(comps(fr@)); cl_canon(comps(to@));
        if abs(comps(fr@)) && abs(comps(to@)) { not_abs(cl(comps(fr@)), cl(comps(to@))); }
    }
    r
}
#[verifier::external_body]
fn vx_unix_slash0(root: &Path) -> (r: VStr)
    ensures r@ =~= slashed(comps(root@)), undot(comps(r@)) =~= undot(comps(root@)) { unimplemented!() }
/// (with what follows from it)
fn vx_unix_slash(root: &Path) -> (r: VStr)
    ensures r@ =~= slashed(comps(root@)), cl(joined(comps(cwd()), comps(r@))) =~= cl(joined(comps(cwd()), comps(root@))), abs(comps(r@)) <==> abs(comps(root@))
{
    let r = vx_unix_slash0(root);
    proof { comps_wf(r@); comps_wf(root@); comps_wf(cwd()); undot_leads(comps(cwd()), comps(r@), comps(root@)); }
    r
}
#[verifier::external_body]
fn vx_path_of<T: VxText + ?Sized>(s: &T) -> (r: &Path) ensures r@ == s.chars_() { unimplemented!() }
#[verifier::external_body]
fn vx_path_new_of<T: VxText>(s: T) -> (r: Path) ensures r@ == s.chars_() { unimplemented!() }
/// Path::join, by components
#[verifier::external_body]
fn vx_join(a: &Path, b: &Path) -> (r: Path) ensures cl(comps(r@)) =~= cl(joined(comps(a@), comps(b@))) { unimplemented!() }

/// typst's file ids
#[verifier::external_body]
struct PackageSpec { x: u8 }
impl View for PackageSpec { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxText for PackageSpec { spec fn chars_(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
struct VirtualPath { x: u8 }
impl VirtualPath {
    uninterp spec fn rooted(&self) -> Seq<char>;
    #[verifier::external_body]
    fn as_rooted_path(&self) -> (r: &Path) ensures r@ == self.rooted() { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
struct FileId { x: u8 }
impl FileId {
    uninterp spec fn pkg(&self) -> Option<PackageSpec>;
    uninterp spec fn rooted(&self) -> Seq<char>;
    #[verifier::external_body]
    fn package(&self) -> (r: Option<&PackageSpec>) ensures r is Some <==> self.pkg() is Some, r is Some ==> Some(*(r->0)) == self.pkg() { unimplemented!() }
    #[verifier::external_body]
    fn vpath(&self) -> (r: &VirtualPath) ensures r.rooted() == self.rooted() { unimplemented!() }
}
// ---- the codec -----------------------------------------------------------------------
spec fn printed(scheme: Seq<char>, path: Seq<char>) -> Seq<char> { scheme + seq![':'] + path }
/// there is only one way to read a printed resource path
proof fn one_reading(s: Seq<char>, p: Seq<char>, s2: Seq<char>, p2: Seq<char>)
    requires !s.contains(':'), !s2.contains(':'), printed(s, p) == printed(s2, p2)
    ensures s =~= s2, p =~= p2
{
    let t = printed(s, p);
    if s.len() < s2.len() { assert(t[s.len() as int] == ':'); assert(printed(s2, p2)[s.len() as int] == s2[s.len() as int]); assert(s2.contains(s2[s.len() as int])); }
    if s2.len() < s.len() { assert(printed(s2, p2)[s2.len() as int] == ':'); assert(t[s2.len() as int] == s[s2.len() as int]); assert(s.contains(s[s2.len() as int])); }
    assert forall|i: int| 0 <= i < s.len() implies s[i] == s2[i] by { assert(t[i] == s[i]); assert(printed(s2, p2)[i] == s2[i]); }
    assert(t.len() == s.len() + 1 + p.len());
    assert(t.len() == s2.len() + 1 + p2.len());
    assert forall|i: int| 0 <= i < p.len() implies p[i] == p2[i] by { assert(t[s.len() + 1 + i] == p[i]); assert(printed(s2, p2)[s2.len() + 1 + i] == p2[i]); }
}
/// what a path leads to from an absolute base does not depend on a leading '.'
proof fn undot_leads(b: Seq<Comp>, d: Seq<Comp>, e: Seq<Comp>)
    requires wfc(b), wfc(d), wfc(e), undot(d) =~= undot(e)
    ensures cl(joined(b, d)) =~= cl(joined(b, e)), abs(d) <==> abs(e)
{ one_undot(b, d); one_undot(b, e); }
proof fn one_undot(b: Seq<Comp>, d: Seq<Comp>)
    requires wfc(b), wfc(d)
    ensures cl(joined(b, d)) =~= cl(joined(b, undot(d))), abs(d) <==> abs(undot(d))
{
    if d.len() > 0 && d[0] is CurDir {
        let u = undot(d);
        if u.len() > 0 { assert(u[0] == d[1]); }
        assert(b + d =~= (b + seq![Comp::CurDir]) + u);
        let x = b + seq![Comp::CurDir];
        assert(x.drop_last() =~= b);
        assert(cl(x) =~= cl(b));
        skip_dot(x, b, u);
    }
}
proof fn skip_dot(x: Seq<Comp>, b: Seq<Comp>, u: Seq<Comp>)
    requires cl(x) == cl(b)
    ensures cl(x + u) == cl(b + u)
    decreases u.len()
{
    if u.len() > 0 {
        skip_dot(x, b, u.drop_last());
        assert((x + u).drop_last() =~= x + u.drop_last());
        assert((b + u).drop_last() =~= b + u.drop_last());
    } else { assert(x + u =~= x); assert(b + u =~= b); }
}
//@type crates/tinymist-task/src/primitives.rs ResourcePath
impl ResourcePath {
    /// schemes have no colon: whatever makes a resource path says so
    spec fn wf(&self) -> bool { !self.0@.contains(':') }
//@fn crates/tinymist-task/src/primitives.rs Display@ResourcePath::fmt C25
//@ret r
    ensures r is Ok ==> final(f)@ =~= old(f)@ + printed(self.0@, self.1@),
//@entry
    proof { reveal_strlit(":"); }
//@end
//@fn crates/tinymist-task/src/primitives.rs FromStr@ResourcePath::from_str C25
//@ret r
    ensures r is Ok <==> value@.contains(':'),
        r is Ok ==> (r->Ok_0).wf() && printed((r->Ok_0).0@, (r->Ok_0).1@) =~= value@,
        // what was printed reads back as it was
        forall|p: ResourcePath| #[trigger] p.wf() && printed(p.0@, p.1@) == value@ ==> r is Ok && (r->Ok_0).0@ =~= p.0@ && (r->Ok_0).1@ =~= p.1@,
//@entry
    proof {
        assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>| !a.contains(':') && !c.contains(':') && #[trigger] printed(a, b) == #[trigger] printed(c, d) implies a =~= c && b =~= d by { one_reading(a, b, c, d); }
        assert forall|a: Seq<char>, b: Seq<char>| (#[trigger] printed(a, b)).contains(':') by { assert(printed(a, b)[a.len() as int] == ':'); }
    }
//@end
//@fn crates/tinymist-task/src/primitives.rs ResourcePath::from_user_sys C25
//@ret r
    ensures r.0@ =~= "file"@, r.wf(), !abs(comps(r.1@)),
        // the path it was made from, seen from the current directory
        cl(joined(comps(cwd()), comps(r.1@))) =~= cl(joined(comps(cwd()), comps(inp@))),
//@entry
    proof {
        reveal_strlit("file");
    }
//@end
//@fn crates/tinymist-task/src/primitives.rs ResourcePath::from_file_id C25
//@ret r
    ensures r.0@ =~= "file_id"@, r.wf(),
        r.1@ =~= (match id.pkg() { Some(p) => p@, None => "$root"@ }) + slashed(comps(id.rooted())),
//@entry
    proof { reveal_strlit("file_id"); }
//@end
//@fn crates/tinymist-task/src/primitives.rs ResourcePath::to_rel_path C25
//@ret r
    ensures r is Some <==> self.0@ == "file"@,
        r is Some && !abs(comps(self.1@)) ==> comps((r->0)@) == comps(self.1@),
        r is Some && abs(comps(self.1@)) ==> cl(joined(comps(base@), comps((r->0)@))) =~= cl(comps(self.1@)),
//@end
//@fn crates/tinymist-task/src/primitives.rs ResourcePath::to_abs_path C25
//@ret r
    ensures r is Some <==> self.0@ == "file"@,
        r is Some ==> cl(comps((r->0)@)) =~= cl(joined(comps(base@), comps(self.1@))),
//@end
}
proof fn not_abs(a: Seq<Comp>, b: Seq<Comp>)
    requires canon(a), canon(b), abs(a), abs(b)
    ensures answer(a, b) is Some, !abs(answer(a, b)->0)
{
    leads_back(a, b);
    common_facts(a, b);
    lead_facts(a); lead_facts(b);
    let d = dp(a, b)->0;
    assert(a[0] == Comp::RootDir && b[0] == Comp::RootDir);
    if abs(d) { assert(false); }
}
}
fn main() {}
