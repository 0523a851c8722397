// Unit: substitution of arguments into localized messages (C14).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@option chains map_option
//@rw type String => VString
//@rw type Cow<$l,str> => VCow<$l>
//@rw expr String::new() => VString::new()
//@rw expr String::as_str($x) => VString::as_str($x)
//@rw expr Cow::Borrowed($x) => VCow::borrowed($x)
//@rw expr Cow::Owned($x) => VCow::owned($x)
//@rw expr LOCALE_TRANSLATIONS.read().unwrap().as_ref().copied() => vx_locale()
//@rw expr $m.chars() => vx_chars($m)
//@rw expr $m.split_once($c) => vx_split_once($m, $c)
//@rw expr $x.to_string() => vx_to_string($x)
//@rw expr $x.iter() => vx_iter($x)
//@rw expr $a == $b => vx_eq(&$a, &$b)
//@rw expr $a != $b => !vx_eq(&$a, &$b)
//@rw type [$t] => Vec<$t>
use vstd::prelude::*;
verus! {
//@include l10n_common.rs
/// std's Cow<str>
#[verifier::external_body]
struct VCow<'a> { s: std::string::String, k: core::marker::PhantomData<&'a str> }
impl<'a> VCow<'a> {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn borrowed(s: &'a str) -> (r: Self) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    fn owned(s: VString) -> (r: Self) ensures r@ == s@ { unimplemented!() }
}
/// what Display prints for a number
uninterp spec fn disp<T>(t: T) -> Seq<char>;
#[verifier::external_body]
fn vx_to_string<T>(t: &T) -> (r: VString) ensures r@ == disp(*t) { unimplemented!() }
/// std's Chars: the characters left to read
#[verifier::external_body]
struct VChars<'a> { s: core::marker::PhantomData<&'a str> }
impl<'a> VChars<'a> {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<char>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
                old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first() { unimplemented!() }
    #[verifier::external_body]
    fn as_str(&self) -> (r: &'a str) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
fn vx_chars<'a>(s: &'a str) -> (r: VChars<'a>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vx_split_once<'a>(s: &'a str, c: char) -> (r: Option<(&'a str, &'a str)>)
    ensures r is None <==> !s@.contains(c),
            r is Some ==> s@ == (r->0).0@ + seq![c] + (r->0).1@ && !(r->0).0@.contains(c) { unimplemented!() }
struct VIter<'a, T> { v: &'a Vec<T>, i: usize }
impl<'a, T> VIter<'a, T> {
    fn vx_next(&mut self) -> (r: Option<&'a T>)
        requires old(self).i <= old(self).v@.len()
        ensures final(self).v == old(self).v, final(self).i <= final(self).v@.len(),
            old(self).i < old(self).v@.len() ==> r == Some(&old(self).v@[old(self).i as int]) && final(self).i == old(self).i + 1,
            old(self).i == old(self).v@.len() ==> r is None && final(self).i == old(self).i
    {
        if self.i < self.v.len() { let x = &self.v[self.i]; self.i = self.i + 1; Some(x) } else { None }
    }
}
fn vx_iter<T>(v: &Vec<T>) -> (r: &Vec<T>) ensures r == v { v }
fn vx_into_iter<T>(v: &Vec<T>) -> (r: VIter<'_, T>) ensures r.v == v, r.i == 0 { VIter { v, i: 0 } }
/// the translations in force
#[verifier::external_body]
struct TranslationMap { s: core::marker::PhantomData<()> }
impl TranslationMap {
    uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>;
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&VString>)
        ensures r is Some <==> self@.dom().contains(k@), r is Some ==> r->0@ == self@[k@] { unimplemented!() }
}
uninterp spec fn locale() -> Option<&'static TranslationMap>;
#[verifier::external_body]
fn vx_locale() -> (r: Option<&'static TranslationMap>) ensures r == locale() { unimplemented!() }

//@type crates/tinymist-l10n/src/lib.rs Arg

/// the message of a key: its translation if there is one, else the built-in text
spec fn message_of(key: Seq<char>, message: Seq<char>) -> Seq<char> {
    match locale() {
        Some(t) => if t@.dom().contains(key) { t@[key] } else { message },
        None => message,
    }
}
spec fn arg_text(a: Arg) -> Seq<char> {
    match a { Arg::Str(s) => s@, Arg::Int(i) => disp(i), Arg::Float(f) => disp(f) }
}
/// the argument a placeholder names
#[verifier::opaque]
spec fn lookup<'a>(args: Seq<(&'static str, Arg<'a>)>, name: Seq<char>, from: int) -> Option<Arg<'a>>
    decreases args.len() - from
{
    if from < 0 || from >= args.len() { None } else if args[from].0@ == name { Some(args[from].1) } else { lookup(args, name, from + 1) }
}
spec fn second<'a>(o: Option<&(&'static str, Arg<'a>)>) -> Option<Arg<'a>> { match o { Some(p) => Some(p.1), None => None } }
/// where the placeholder opened just before `m` closes
spec fn close(m: Seq<char>) -> int
    decreases m.len()
{
    if m.len() == 0 { 0 } else if m[0] == '}' { 0 } else { 1 + close(m.drop_first()) }
}
broadcast proof fn close_at(a: Seq<char>, b: Seq<char>)
    requires !a.contains('}')
    ensures close(#[trigger] (a + seq!['}'] + b)) == a.len(),
        (a + seq!['}'] + b).take(a.len() as int) == a, (a + seq!['}'] + b).skip(a.len() as int + 1) == b
    decreases a.len()
{
    let m = a + seq!['}'] + b;
    assert(m.take(a.len() as int) =~= a);
    assert(m.skip(a.len() as int + 1) =~= b);
    if a.len() > 0 {
        assert(m[0] == a[0]);
        assert(m.drop_first() =~= a.drop_first() + seq!['}'] + b);
        assert(!a.drop_first().contains('}')) by {
            if a.drop_first().contains('}') { let i = a.drop_first().index_of('}'); assert(a[i + 1] == '}'); }
        }
        close_at(a.drop_first(), b);
    } else { assert(m[0] == '}'); }
}
proof fn close_in(m: Seq<char>)
    ensures 0 <= close(m) <= m.len(), close(m) < m.len() <==> m.contains('}')
    decreases m.len()
{
    if m.len() > 0 {
        close_in(m.drop_first());
        if m[0] != '}' {
            if m.contains('}') { let i = m.index_of('}'); assert(m.drop_first()[i - 1] == '}'); }
            if m.drop_first().contains('}') { let i = m.drop_first().index_of('}'); assert(m[i + 1] == '}'); }
        } else { assert(m[0] == '}'); }
    }
}
/// Every placeholder that names an argument replaced by the argument's text, everything else as it is.
#[verifier::opaque]
spec fn subst(m: Seq<char>, args: Seq<(&'static str, Arg)>) -> Seq<char>
    decreases m.len()
{
    if m.len() == 0 { Seq::empty() } else {
        let rest = m.drop_first();
        let k = close(rest);
        if m[0] == '{' && 0 <= k < rest.len() && lookup(args, rest.take(k), 0) is Some {
            arg_text(lookup(args, rest.take(k), 0)->0) + subst(rest.skip(k + 1), args)
        } else {
            seq![m[0]] + subst(rest, args)
        }
    }
}
//@fn crates/tinymist-l10n/src/lib.rs find_message C14
//@ret r
    ensures r@ == message_of(key@, message@),
//@end
//@fn crates/tinymist-l10n/src/lib.rs t_without_args C14
//@ret r
    ensures r@ == message_of(key@, message@),
//@end
//@fn crates/tinymist-l10n/src/lib.rs t_with_args C14
//@ret r
//@entry
    broadcast use one_char;
    let ghost m0 = message_of(key@, message@);
//@loop 0 whilelet
    invariant result@ + subst(message_iter@, args@) == subst(m0, args@),
    ensures message_iter@.len() == 0,
    decreases message_iter@.len(),
//@loopstart 0
    broadcast use one_char;
    let ghost m1 = message_iter@;
    let ghost r1 = result@;
    broadcast use close_at;
    proof {
        reveal_with_fuel(subst, 2);
        if m1.len() > 0 {
            let rest = m1.drop_first();
            close_in(rest);
            assert(r1.push(m1[0]) + subst(rest, args@) =~= r1 + (seq![m1[0]] + subst(rest, args@)));
            assert forall|t: Seq<char>, u: Seq<char>| #[trigger] ((r1 + t) + u) == r1 + (t + u) by { assert((r1 + t) + u =~= r1 + (t + u)); }
        }
    }
//@after 0
    proof { reveal(subst); assert(result@ + subst(message_iter@, args@) =~= result@); }
//@loop 1 for
    invariant_except_break
        second(vx_out0) is None,
        lookup(args@, arg_index_str@, 0) == lookup(args@, arg_index_str@, vx_it1.i as int),
    invariant vx_it1.i <= args@.len(), vx_it1.v == args, m1.len() > 0, message_iter@ == m1.drop_first(), result@ == r1,
    ensures lookup(args@, arg_index_str@, 0) == second(vx_out0),
    decreases args@.len() - vx_it1.i,
//@loopstart 1
    proof { reveal(lookup); }
//@spec
    ensures r@ == subst(message_of(key@, message@), args@),
//@end
}
fn main() {}
