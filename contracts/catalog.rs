// Unit: translation catalogues (C15).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@option chains fmt_concat
//@rw type String => VString
//@rw type TranslationMapSet => TSet
//@rw type TranslationMap => TMap
//@rw type HashSet<$t> => VSet<$t>
//@rw type anyhow::Result<$t> => Result<$t, VxErr>
//@macro anyhow::anyhow => vx_err()
//@macro anyhow => vx_err()
//@rw expr TranslationMapSet::default() => TSet::default()
//@rw expr FxHashMap::default() => TSet::default()
//@rw expr String::new() => VString::new()
//@rw expr $m.entry($k).or_default() => $m.vx_entry($k)
//@rw expr $m.entry($k).or_insert_with($f_list) => $m.vx_entry($k)
//@rw expr $m.sort_by($f_list) => vx_sort(&mut $m)
//@rw expr $m.sort_by_key($f_list) => vx_sort(&mut $m)
//@rw expr $m.sort_unstable_by($f_list) => vx_sort(&mut $m)
//@rw expr $m.sort() => vx_sort(&mut $m)
//@rw expr $m.into_iter().collect::<Vec<$t>>() => vx_entries($m)
//@rw expr $x.iter() => &$x
//@rw expr $x.to_owned() => vx_owned(&$x)
//@rw expr $x.to_string() => vx_owned(&$x)
//@rw expr $s.par_split($c) => vx_split($s, $c)
//@rw expr $s.split($c) => vx_split($s, $c)
//@rw expr $s.trim() => vx_trim($s)
//@rw expr $s.starts_with($c) => vx_starts($s, $c)
//@rw expr $s.is_empty() => vx_is_empty($s)
//@rw expr $s.find($c) => vx_find($s, $c)
//@rw expr $s.len() => vx_len($s)
//@rw expr &$s[..$e] => vx_to($s, $e)
//@rw expr &$s[$a..$e] => vx_sub($s, $a, $e)
//@rw expr &$s[$a..] => vx_from($s, $a)
//@rw expr $s[..$e] => vx_to($s, $e)
//@rw expr $s[$a..$e] => vx_sub($s, $a, $e)
//@rw expr $s[$a..] => vx_from($s, $a)
use vstd::prelude::*;
verus! {
//@include l10n_common.rs
//@include coll.rs
#[derive(Debug)]
struct VxErr;
#[verifier::external_body]
fn vx_err() -> (r: VxErr) { unimplemented!() }
#[verifier::external_body]
fn vx_owned<T: VxText + ?Sized>(t: &T) -> (r: VString) ensures r@ == t.txt() { unimplemented!() }
/// format!
#[verifier::external_body]
fn vx_flit(s: &str) -> (r: VString) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vx_fdisp<T: VxText + ?Sized>(s: &T) -> (r: VString) ensures r@ == s.txt() { unimplemented!() }
#[verifier::external_body]
fn vx_fadd(a: VString, b: VString) -> (r: VString) ensures r@ == a@ + b@ { unimplemented!() }
type Texts = Map<Seq<char>, Seq<char>>;
type Cat = Map<Seq<char>, Texts>;
/// rustc_hash's FxHashMap
#[verifier::external_body]
struct TMap { x: u8 }
impl TMap {
    uninterp spec fn view(&self) -> Texts;
    #[verifier::external_body]
    fn insert(&mut self, k: VString, v: VString) -> (r: Option<VString>) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &str) -> (r: Option<VString>)
        ensures final(self)@ == old(self)@.remove(k@), r is Some <==> old(self)@.dom().contains(k@), r is Some ==> r->0@ == old(self)@[k@] { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&VString>)
        ensures r is Some <==> self@.dom().contains(k@), r is Some ==> r->0@ == self@[k@] { unimplemented!() }
}
#[verifier::external_body]
struct TSet { x: u8 }
impl TSet {
    uninterp spec fn view(&self) -> Cat;
    #[verifier::external_body]
    fn default() -> (r: TSet) ensures r@ == Map::<Seq<char>, Texts>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: VString, v: TMap) -> (r: Option<TMap>) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body]
    fn vx_entry(&mut self, k: VString) -> (r: &mut TMap)
        ensures (*r)@ == texts_of(old(self)@, k@), final(self)@ == old(self)@.insert(k@, (*final(r))@) { unimplemented!() }
    /// retain: everything taken out, to be put back if it stays
    #[verifier::external_body]
    fn vx_take_all(&mut self) -> (r: TSet) ensures r@ == old(self)@, final(self)@ == Map::<Seq<char>, Texts>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn vx_put_back(&mut self, k: VString, v: TMap) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
}
spec fn texts_of(m: Cat, k: Seq<char>) -> Texts { if m.dom().contains(k) { m[k] } else { Map::empty() } }
trait VxEntry { type V; spec fn key(&self) -> Seq<char>; spec fn val(&self) -> Self::V; }
impl VxEntry for (VString, VString) { type V = Seq<char>; spec fn key(&self) -> Seq<char> { self.0@ } spec fn val(&self) -> Seq<char> { self.1@ } }
impl VxEntry for (VString, TMap) { type V = Texts; spec fn key(&self) -> Seq<char> { self.0@ } spec fn val(&self) -> Texts { self.1@ } }
/// the entries of a map, each once, in some order
spec fn lists<T: VxEntry>(s: Seq<T>, m: Map<Seq<char>, T::V>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].key() != #[trigger] s[j].key()
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains(#[trigger] s[i].key()) && m[s[i].key()] == s[i].val()
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].key() == k
}
impl VxColl for TSet { type Item = (VString, TMap); spec fn items(self, s: Seq<(VString, TMap)>) -> bool { lists(s, self@) } }
impl VxColl for TMap { type Item = (VString, VString); spec fn items(self, s: Seq<(VString, VString)>) -> bool { lists(s, self@) } }
trait VxMap: Sized { type E: VxEntry; spec fn m(self) -> Map<Seq<char>, <Self::E as VxEntry>::V>; }
impl VxMap for TSet { type E = (VString, TMap); spec fn m(self) -> Map<Seq<char>, Texts> { self@ } }
impl VxMap for TMap { type E = (VString, VString); spec fn m(self) -> Map<Seq<char>, Seq<char>> { self@ } }
#[verifier::external_body]
fn vx_entries<M: VxMap>(m: M) -> (r: Vec<M::E>) ensures lists(r@, m.m()) { unimplemented!() }
/// sorting by whatever order: what is there stays there
#[verifier::external_body]
fn vx_permute<T>(v: &mut Vec<T>) ensures exists|p: Seq<int>| perm(old(v)@, final(v)@, p) { unimplemented!() }
fn vx_sort<T: VxEntry>(v: &mut Vec<T>)
    ensures forall|m: Map<Seq<char>, T::V>| #![trigger lists(old(v)@, m)] #![trigger lists(final(v)@, m)] lists(old(v)@, m) ==> lists(final(v)@, m)
{
    let ghost a = v@;
    vx_permute(v);
    proof { assert forall|m: Map<Seq<char>, T::V>| lists(a, m) implies lists(v@, m) by { lists_perm(a, v@, m); } }
}
spec fn perm<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool {
    &&& a.len() == b.len() && p.len() == a.len()
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < a.len() && b[i] == a[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j]
    &&& forall|j: int| 0 <= j < a.len() ==> exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == j && b[i] == #[trigger] a[j]
}
proof fn lists_perm<T: VxEntry>(a: Seq<T>, b: Seq<T>, m: Map<Seq<char>, T::V>)
    requires lists(a, m), exists|p: Seq<int>| perm(a, b, p)
    ensures lists(b, m)
{
    let p = choose|p: Seq<int>| perm(a, b, p);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i].key() != #[trigger] b[j].key() by {
        assert(p[i] != p[j]);
        if p[i] < p[j] { assert(a[p[i]].key() != a[p[j]].key()); } else { assert(a[p[j]].key() != a[p[i]].key()); }
    }
    assert forall|i: int| 0 <= i < b.len() implies m.dom().contains(#[trigger] b[i].key()) && m[b[i].key()] == b[i].val() by { assert(b[i] == a[p[i]]); }
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies exists|i: int| 0 <= i < b.len() && #[trigger] b[i].key() == k by {
        let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j].key() == k;
        let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == j && b[i] == a[j];
        assert(b[i].key() == k);
    }
}
/// std's HashSet of texts
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct VSet<T> { p: core::marker::PhantomData<T> }
impl<T: VxText> VSet<T> {
    uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    fn push(&mut self, t: T) ensures final(self)@ == old(self)@.insert(t.txt()) { unimplemented!() }
    #[verifier::external_body]
    fn contains<U: VxText + ?Sized>(&self, t: &U) -> (r: bool) ensures r == self@.contains(t.txt()) { unimplemented!() }
}
trait VxNew: Sized { spec fn fresh(self) -> bool; }
impl<T: VxText> VxNew for VSet<T> { spec fn fresh(self) -> bool { self@ == Set::<Seq<char>>::empty() } }
#[verifier::external_body]
fn vx_collect_new<T: VxNew>() -> (r: T) ensures r.fresh() { unimplemented!() }

// ---- texts: lines, white space, bytes ------------------------------------------------
uninterp spec fn is_ws(c: char) -> bool;
broadcast axiom fn ws_chars(c: char)
    ensures #[trigger] is_ws(c) ==> c != '[' && c != ']' && c != '=' && c != '#', c == ' ' || c == '\n' ==> is_ws(c);
spec fn trim_start(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s[0]) { trim_start(s.drop_first()) } else { s } }
spec fn trim_end(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s.last()) { trim_end(s.drop_last()) } else { s } }
spec fn trim(s: Seq<char>) -> Seq<char> { trim_end(trim_start(s)) }
spec fn cut_nl(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == '\n' { 0 } else { 1 + cut_nl(s.drop_first()) } }
/// the lines of a text
spec fn split(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    let k = cut_nl(s);
    if k < 0 || k >= s.len() { seq![s] } else { seq![s.take(k)] + split(s.skip(k + 1)) }
}
spec fn clen(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
/// UTF-8 length
spec fn blen(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { clen(s[0]) + blen(s.drop_first()) } }
/// the character that starts at a byte offset
spec fn at(s: Seq<char>, n: int) -> int decreases s.len() { if n <= 0 || s.len() == 0 { 0 } else { 1 + at(s.drop_first(), n - clen(s[0])) } }
spec fn on_char(s: Seq<char>, n: int) -> bool { 0 <= at(s, n) <= s.len() && blen(s.take(at(s, n))) == n }
#[verifier::external_body]
fn vx_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>) requires c == '\n' ensures r@.len() == split(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split(s@)[i] { unimplemented!() }
#[verifier::external_body]
fn vx_trim<'a>(s: &'a str) -> (r: &'a str) ensures r@ == trim(s@) { unimplemented!() }
#[verifier::external_body]
fn vx_starts(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
#[verifier::external_body]
fn vx_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
fn vx_len(s: &str) -> (r: usize) ensures r == blen(s@) { unimplemented!() }
spec fn find_eq(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + find_eq(s.drop_first(), c) } }
#[verifier::external_body]
fn vx_find(s: &str, c: char) -> (r: Option<usize>)
    ensures r is Some <==> find_eq(s@, c) < s@.len(), r is Some ==> r->0 == blen(s@.take(find_eq(s@, c))), blen(s@) <= isize::MAX { unimplemented!() }
/// slices by bytes: they panic unless the offsets are in order and between characters
#[verifier::external_body]
fn vx_to<'a>(s: &'a str, e: usize) -> (r: &'a str) requires on_char(s@, e as int) ensures r@ == s@.take(at(s@, e as int)) { unimplemented!() }
#[verifier::external_body]
fn vx_from<'a>(s: &'a str, a: usize) -> (r: &'a str) requires on_char(s@, a as int) ensures r@ == s@.skip(at(s@, a as int)) { unimplemented!() }
#[verifier::external_body]
fn vx_sub<'a>(s: &'a str, a: usize, e: usize) -> (r: &'a str) requires a <= e, on_char(s@, a as int), on_char(s@, e as int)
    ensures r@ == s@.subrange(at(s@, a as int), at(s@, e as int)) { unimplemented!() }

// ---- what a catalogue text says -----------------------------------------------------
struct St { cat: Cat, key: Seq<char> }
spec fn put(m: Cat, a: Seq<char>, b: Seq<char>, v: Seq<char>) -> Cat { m.insert(a, texts_of(m, a).insert(b, v)) }
spec fn empty_cat() -> Cat { Map::empty() }
/// one line; None: not a line of a catalogue
spec fn step(st: Option<St>, raw: Seq<char>, kf: bool) -> Option<St> {
    let line = trim(raw);
    if st is None { None }
    else if line.len() == 0 || line[0] == '#' { st }
    else { step_line(st, line, kf) }
}
spec fn step_line(st: Option<St>, line: Seq<char>, kf: bool) -> Option<St> {
    let k = find_eq(line, '=');
    if st is None { None }
    else if line.len() > 0 && line[0] == '[' { Some(St { key: line.subrange(1, line.len() - 1), ..st->0 }) }
    else if k >= line.len() { None }
    else {
        let lang = trim(line.take(k));
        let v = trim(line.skip(k + 1));
        Some(St { cat: if kf { put(st->0.cat, st->0.key, lang, v) } else { put(st->0.cat, lang, st->0.key, v) }, ..st->0 })
    }
}
spec fn kept(raw: Seq<char>) -> bool { let l = trim(raw); l.len() > 0 && l[0] != '#' }
spec fn fold(st: Option<St>, ls: Seq<Seq<char>>, kf: bool) -> Option<St> decreases ls.len() { if ls.len() == 0 { st } else { step(fold(st, ls.drop_last(), kf), ls.last(), kf) } }
spec fn start() -> Option<St> { Some(St { cat: empty_cat(), key: Seq::empty() }) }
/// the catalogue a text stands for
spec fn meaning(s: Seq<char>, kf: bool) -> Option<Cat> { match fold(start(), split(s), kf) { Some(st) => Some(st.cat), None => None } }
/// section headers are closed
spec fn line_ok(raw: Seq<char>) -> bool { let l = trim(raw); l.len() > 0 && l[0] == '[' ==> l.len() >= 2 && l.last() == ']' }
spec fn well_formed(s: Seq<char>) -> bool { forall|i: int| 0 <= i < split(s).len() ==> line_ok(#[trigger] split(s)[i]) }

// ---- updating -----------------------------------------------------------------------
spec fn english() -> Seq<char> { "en"@ }
spec fn uses(kvs: Seq<(VString, VString)>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] kvs[i]).0@ == k }

//@fn crates/tinymist-l10n/src/lib.rs update_translations C15
//@entry
    let ghost kvs = key_values@;
    let ghost old_cat = translations@;
    let ghost mid = empty_cat();
//@loop 0 for
    invariant
        0 <= vx_it0.pos() <= vx_it0.all().len(), vx_it0.all().len() == kvs.len(),
        forall|i: int| 0 <= i < kvs.len() ==> *(#[trigger] vx_it0.all()[i]) == kvs[i],
        forall|k: Seq<char>| #[trigger] vx_out0@.contains(k) <==> uses(kvs, vx_it0.pos(), k),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.all().len() - vx_it0.pos(),
//@loop 1 for
    invariant
        0 <= vx_it1.pos() <= vx_it1.all().len(), lists(vx_it1.all(), old_cat),
        forall|k: Seq<char>| #[trigger] used@.contains(k) <==> uses(kvs, kvs.len() as int, k),
        forall|k: Seq<char>| #[trigger] translations@.dom().contains(k) <==> uses(kvs, kvs.len() as int, k) && exists|i: int| 0 <= i < vx_it1.pos() && (#[trigger] vx_it1.all()[i]).key() == k,
        forall|k: Seq<char>| #[trigger] translations@.dom().contains(k) ==> old_cat.dom().contains(k) && translations@[k] == old_cat[k],
    ensures vx_it1.pos() == vx_it1.all().len(),
    decreases vx_it1.all().len() - vx_it1.pos(),
//@loopstart 1
    proof { if vx_it1.pos() < vx_it1.all().len() { let e = vx_it1.all()[vx_it1.pos()]; assert(old_cat.dom().contains(e.key()) && old_cat[e.key()] == e.val() && e.val() == e.1@ && e.key() == e.0@); } }
//@loop 2 for
    invariant
        0 <= vx_it2.pos() <= vx_it2.all().len(), vx_it2.all() == kvs, en@ == english(),
        forall|k: Seq<char>| #[trigger] translations@.dom().contains(k) ==> uses(kvs, kvs.len() as int, k),
        forall|k: Seq<char>| #[trigger] translations@.dom().contains(k) <==> (uses(kvs, kvs.len() as int, k) && old_cat.dom().contains(k)) || uses(kvs, vx_it2.pos(), k),
        forall|k: Seq<char>, l: Seq<char>| translations@.dom().contains(k) && l != english() ==> (#[trigger] translations@[k].dom().contains(l) <==> texts_of(old_cat, k).dom().contains(l)),
        forall|k: Seq<char>, l: Seq<char>| translations@.dom().contains(k) && l != english() && texts_of(old_cat, k).dom().contains(l) ==> #[trigger] translations@[k][l] == old_cat[k][l],
        forall|i: int| #![trigger kvs[i]] 0 <= i < vx_it2.pos() ==> sets_en(translations@, kvs, vx_it2.pos(), kvs[i].0@),
    ensures vx_it2.pos() == kvs.len(),
    decreases vx_it2.all().len() - vx_it2.pos(),
//@loopstart 2
    let ghost n2 = vx_it2.pos();
    let ghost m2 = translations@;
//@loopend 2
    proof {
        let k2 = kvs[n2].0@;
        assert(translations@ == m2.insert(k2, texts_of(m2, k2).insert(english(), kvs[n2].1@)));
        assert(uses(kvs, kvs.len() as int, k2));
        assert forall|k: Seq<char>| #[trigger] translations@.dom().contains(k) <==> (uses(kvs, kvs.len() as int, k) && old_cat.dom().contains(k)) || uses(kvs, n2 + 1, k) by {
            assert(uses(kvs, n2 + 1, k) <==> uses(kvs, n2, k) || k == k2) by {
                if uses(kvs, n2 + 1, k) && k != k2 { let i = choose|i: int| 0 <= i < n2 + 1 && (#[trigger] kvs[i]).0@ == k; assert(i < n2); }
                if k == k2 { assert(kvs[n2].0@ == k); }
            }
        }
        assert forall|i: int| #![trigger kvs[i]] 0 <= i < n2 + 1 implies sets_en(translations@, kvs, n2 + 1, kvs[i].0@) by {
            if kvs[i].0@ == k2 { assert(kvs[n2].0@ == kvs[i].0@ && translations@[k2][english()] == kvs[n2].1@); } else {
                assert(sets_en(m2, kvs, n2, kvs[i].0@));
                let j = choose|j: int| 0 <= j < n2 && (#[trigger] kvs[j]).0@ == kvs[i].0@ && m2[kvs[i].0@][english()] == kvs[j].1@;
                assert(kvs[j].0@ == kvs[i].0@);
            }
        }
    }
//@spec
    ensures
        // exactly the used messages stay
        forall|k: Seq<char>| #[trigger] final(translations)@.dom().contains(k) <==> uses(key_values@, key_values@.len() as int, k),
        // with every translation they had
        forall|k: Seq<char>, l: Seq<char>| final(translations)@.dom().contains(k) && l != english() ==>
            (#[trigger] final(translations)@[k].dom().contains(l) <==> texts_of(old(translations)@, k).dom().contains(l)),
        forall|k: Seq<char>, l: Seq<char>| final(translations)@.dom().contains(k) && l != english() && texts_of(old(translations)@, k).dom().contains(l) ==>
            #[trigger] final(translations)@[k][l] == old(translations)@[k][l],
        // and the English text that is in use
        forall|i: int| #![trigger key_values@[i]] 0 <= i < key_values@.len() ==> sets_en(final(translations)@, key_values@, key_values@.len() as int, key_values@[i].0@),
//@end
spec fn sets_en(m: Cat, kvs: Seq<(VString, VString)>, n: int, k: Seq<char>) -> bool {
    m.dom().contains(k) && m[k].dom().contains(english()) && exists|j: int| 0 <= j < n && (#[trigger] kvs[j]).0@ == k && m[k][english()] == kvs[j].1@
}

// ---- reading ------------------------------------------------------------------------
proof fn blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b), blen(a) >= a.len()
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); } else {
        assert((a + b).drop_first() =~= a.drop_first() + b);
        blen_add(a.drop_first(), b);
    }
}
proof fn at_blen(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures at(s, blen(s.take(k))) == k, on_char(s, blen(s.take(k)))
    decreases k
{
    if k > 0 {
        let t = s.take(k);
        assert(t.drop_first() =~= s.drop_first().take(k - 1));
        blen_add(t.drop_first(), Seq::empty());
        assert(t.drop_first() + Seq::<char>::empty() =~= t.drop_first());
        at_blen(s.drop_first(), k - 1);
    }
}
/// the offsets around a one-byte character
proof fn around(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), clen(s[k]) == 1
    ensures
        blen(s.take(k + 1)) == blen(s.take(k)) + 1,
        on_char(s, blen(s.take(k))), at(s, blen(s.take(k))) == k,
        on_char(s, blen(s.take(k)) + 1), at(s, blen(s.take(k)) + 1) == k + 1,
        blen(s.take(k)) < blen(s), s.take(s.len() as int) == s,
{
    assert(s.take(k + 1) =~= s.take(k) + seq![s[k]]);
    assert(s.take(s.len() as int) =~= s);
    blen_add(s.take(k), seq![s[k]]);
    assert(seq![s[k]].drop_first() =~= Seq::empty());
    reveal_with_fuel(blen, 2);
    assert(blen(seq![s[k]]) == 1);
    assert(s =~= s.take(k + 1) + s.skip(k + 1));
    blen_add(s.take(k + 1), s.skip(k + 1));
    blen_add(s.skip(k + 1), Seq::empty());
    assert(s.skip(k + 1) + Seq::<char>::empty() =~= s.skip(k + 1));
    at_blen(s, k); at_blen(s, k + 1);
}
proof fn find_eq_at(s: Seq<char>, c: char)
    ensures 0 <= find_eq(s, c) <= s.len(), find_eq(s, c) < s.len() ==> s[find_eq(s, c)] == c,
        forall|i: int| 0 <= i < find_eq(s, c) ==> s[i] != c
    decreases s.len()
{
    if s.len() > 0 && s[0] != c {
        find_eq_at(s.drop_first(), c);
        assert forall|i: int| 0 <= i < find_eq(s, c) implies s[i] != c by { if i > 0 { assert(s.drop_first()[i - 1] == s[i]); } }
    }
}
/// the trimmed lines that say something
spec fn said(ls: Seq<Seq<char>>) -> Seq<Seq<char>> decreases ls.len() { if ls.len() == 0 { Seq::empty() } else if kept(ls.last()) { said(ls.drop_last()).push(trim(ls.last())) } else { said(ls.drop_last()) } }
spec fn fold_said(st: Option<St>, ls: Seq<Seq<char>>, kf: bool) -> Option<St> decreases ls.len() { if ls.len() == 0 { st } else { step_line(fold_said(st, ls.drop_last(), kf), ls.last(), kf) } }
proof fn said_folds(st: Option<St>, ls: Seq<Seq<char>>, kf: bool)
    ensures fold(st, ls, kf) == fold_said(st, said(ls), kf)
    decreases ls.len()
{
    if ls.len() > 0 {
        said_folds(st, ls.drop_last(), kf);
        if kept(ls.last()) { assert(said(ls).drop_last() =~= said(ls.drop_last())); }
    }
}
proof fn said_ok(ls: Seq<Seq<char>>)
    ensures forall|i: int| 0 <= i < said(ls).len() ==> exists|j: int| 0 <= j < ls.len() && #[trigger] said(ls)[i] == trim(#[trigger] ls[j])
    decreases ls.len()
{
    if ls.len() > 0 {
        said_ok(ls.drop_last());
        assert forall|i: int| 0 <= i < said(ls).len() implies exists|j: int| 0 <= j < ls.len() && #[trigger] said(ls)[i] == trim(#[trigger] ls[j]) by {
            if i < said(ls.drop_last()).len() {
                assert(said(ls)[i] == said(ls.drop_last())[i]);
                let j = choose|j: int| 0 <= j < ls.len() - 1 && said(ls.drop_last())[i] == trim(#[trigger] ls.drop_last()[j]);
                assert(ls[j] == ls.drop_last()[j]);
            } else { assert(said(ls)[i] == trim(ls[ls.len() - 1])); }
        }
    }
}
proof fn fold_none(ls: Seq<Seq<char>>, n: int, kf: bool)
    requires 0 <= n <= ls.len(), fold_said(start(), ls.take(n), kf) is None
    ensures fold_said(start(), ls, kf) is None
    decreases ls.len() - n
{
    if n < ls.len() {
        assert(ls.take(n + 1).drop_last() =~= ls.take(n));
        fold_none(ls, n + 1, kf);
    } else { assert(ls.take(n) =~= ls); }
}
spec fn same_texts(a: Seq<&str>, b: Seq<Seq<char>>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == b[i] }
//@fn crates/tinymist-l10n/src/lib.rs deserialize C15
//@ret r
//@entry
    let ghost raw = split(input@);
    broadcast use one_char;
//@loop 0 for
    invariant
        0 <= vx_it0.pos() <= vx_it0.all().len(), vx_it0.all().len() == raw.len(),
        forall|i: int| 0 <= i < raw.len() ==> (#[trigger] vx_it0.all()[i])@ == raw[i],
        same_texts(vx_out0@, said(raw.take(vx_it0.pos()))),
    ensures vx_it0.pos() == raw.len(),
    decreases vx_it0.all().len() - vx_it0.pos(),
//@loopstart 0
    proof {
        let n = vx_it0.pos();
        if n < raw.len() {
            assert(raw.take(n + 1).drop_last() =~= raw.take(n));
            assert(raw.take(n + 1).last() == raw[n]);
        }
    }
//@after 0
    proof { assert(raw.take(raw.len() as int) =~= raw); }
//@loop 1 for
    invariant
        0 <= vx_it1.pos() <= vx_it1.all().len(), vx_it1.all().len() == said(raw).len(),
        forall|i: int| 0 <= i < said(raw).len() ==> (#[trigger] vx_it1.all()[i])@ == said(raw)[i],
        fold_said(start(), said(raw).take(vx_it1.pos()), key_first) == Some(St { cat: translations@, key: key@ }),
        well_formed(input@), raw == split(input@),
    ensures vx_it1.pos() == said(raw).len(),
    decreases vx_it1.all().len() - vx_it1.pos(),
//@loopstart 1
    proof {
        let n = vx_it1.pos();
        if n < said(raw).len() {
            let line = said(raw)[n];
            assert(said(raw).take(n + 1).drop_last() =~= said(raw).take(n));
            assert(said(raw).take(n + 1).last() == line);
            said_ok(raw);
            let j = choose|j: int| 0 <= j < raw.len() && line == trim(#[trigger] raw[j]);
            assert(line_ok(raw[j]));
            if line.len() > 0 && line[0] == '[' { around(line, 0); around(line, line.len() - 1); assert(line.take(0) =~= Seq::empty()); }
            find_eq_at(line, '=');
            let k = find_eq(line, '=');
            if k < line.len() { around(line, k); }
            if step_line(fold_said(start(), said(raw).take(n), key_first), line, key_first) is None { fold_none(said(raw), n + 1, key_first); said_folds(start(), raw, key_first); }
        }
    }
//@after 1
    proof { assert(said(raw).take(said(raw).len() as int) =~= said(raw)); said_folds(start(), raw, key_first); }
//@spec
    requires well_formed(input@)
    ensures r is Ok <==> meaning(input@, key_first) is Some, r is Ok ==> Some(r->Ok_0@) == meaning(input@, key_first),
//@end

// ---- writing ------------------------------------------------------------------------
spec fn no_nl(s: Seq<char>) -> bool { !s.contains('\n') }
spec fn clean_lang(l: Seq<char>) -> bool { l.len() > 0 && no_nl(l) && !l.contains('=') && trim(l) == l && l[0] != '[' && l[0] != '#' }
spec fn clean_text(v: Seq<char>) -> bool { no_nl(v) && trim(v) == v }
/// what can be written as lines: keys without line breaks, language tags without '=', trimmed texts
spec fn clean(m: Cat) -> bool {
    forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> no_nl(k) && clean_texts(m[k])
}
spec fn clean_texts(t: Texts) -> bool { forall|l: Seq<char>| #[trigger] t.dom().contains(l) ==> clean_lang(l) && clean_text(t[l]) }
spec fn whole(s: Seq<char>) -> bool { s.len() == 0 || s.last() == '\n' }
spec fn say(st: Option<St>, s: Seq<char>) -> Option<St> { fold(st, split(s), true) }
proof fn cut_nl_at(s: Seq<char>)
    ensures 0 <= cut_nl(s) <= s.len(), cut_nl(s) < s.len() ==> s[cut_nl(s)] == '\n', forall|i: int| 0 <= i < cut_nl(s) ==> s[i] != '\n'
    decreases s.len()
{
    if s.len() > 0 && s[0] != '\n' {
        cut_nl_at(s.drop_first());
        assert forall|i: int| 0 <= i < cut_nl(s) implies s[i] != '\n' by { if i > 0 { assert(s.drop_first()[i - 1] == s[i]); } }
    }
}
proof fn cut_nl_is(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), s[k] == '\n', forall|i: int| 0 <= i < k ==> s[i] != '\n'
    ensures cut_nl(s) == k
{ cut_nl_at(s); }
proof fn fold_first(st: Option<St>, x: Seq<char>, ls: Seq<Seq<char>>, kf: bool)
    ensures fold(st, seq![x] + ls, kf) == fold(step(st, x, kf), ls, kf)
    decreases ls.len()
{
    let a = seq![x] + ls;
    if ls.len() == 0 { assert(a.drop_last() =~= Seq::empty()); reveal_with_fuel(fold, 2); assert(a.last() == x); }
    else { assert(a.drop_last() =~= seq![x] + ls.drop_last()); assert(a.last() == ls.last()); fold_first(st, x, ls.drop_last(), kf); }
}
/// whole lines are read one after the other
proof fn say_add(st: Option<St>, a: Seq<char>, b: Seq<char>)
    requires whole(a)
    ensures say(st, a + b) == say(say(st, a), b)
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(split(a) =~= seq![a]);
        assert(seq![a] =~= seq![a] + Seq::<Seq<char>>::empty());
        fold_first(st, a, Seq::empty(), true);
        assert(trim(a).len() == 0);
        assert(say(st, a) == step(st, a, true));
    } else {
        cut_nl_at(a);
        let k = cut_nl(a);
        assert(a[a.len() - 1] == '\n');
        assert(k < a.len());
        assert((a + b)[k] == '\n');
        assert forall|i: int| 0 <= i < k implies (a + b)[i] != '\n' by { assert((a + b)[i] == a[i]); }
        cut_nl_is(a + b, k);
        assert((a + b).take(k) =~= a.take(k));
        assert((a + b).skip(k + 1) =~= a.skip(k + 1) + b);
        assert(whole(a.skip(k + 1)));
        let st1 = step(st, a.take(k), true);
        say_add(st1, a.skip(k + 1), b);
        fold_first(st, a.take(k), split(a.skip(k + 1)), true);
        fold_first(st, a.take(k), split((a + b).skip(k + 1)), true);
    }
}
proof fn say_line(st: Option<St>, l: Seq<char>)
    requires no_nl(l)
    ensures say(st, l + seq!['\n']) == step(st, l, true), whole(l + seq!['\n'])
{
    let a = l + seq!['\n'];
    assert forall|i: int| 0 <= i < l.len() implies a[i] != '\n' by { assert(l.contains(l[i])); }
    assert(a[l.len() as int] == '\n');
    cut_nl_is(a, l.len() as int);
    let e = a.skip(l.len() as int + 1);
    assert(e =~= Seq::empty());
    assert(a.take(l.len() as int) =~= l);
    assert(split(e) =~= seq![e]);
    fold_first(st, l, seq![e], true);
    assert(seq![e] =~= seq![e] + Seq::<Seq<char>>::empty());
    fold_first(step(st, l, true), e, Seq::empty(), true);
    assert(trim(e).len() == 0);
}
proof fn trim_len(s: Seq<char>)
    ensures trim_start(s).len() <= s.len(), trim_end(s).len() <= s.len(), trim(s).len() <= trim_start(s).len()
    decreases s.len()
{
    if s.len() > 0 { trim_len(s.drop_first()); trim_len(s.drop_last()); }
    trim_end_len(trim_start(s));
}
proof fn trim_end_len(s: Seq<char>)
    ensures trim_end(s).len() <= s.len()
    decreases s.len()
{
    if s.len() > 0 { trim_end_len(s.drop_last()); }
}
proof fn trimmed(s: Seq<char>)
    requires trim(s) == s, s.len() > 0
    ensures !is_ws(s[0]), !is_ws(s.last())
{
    trim_len(s); trim_len(s.drop_first()); trim_end_len(s.drop_last());
    trim_end_len(trim_start(s.drop_first()));
}
proof fn keeps(s: Seq<char>)
    requires s.len() > 0, !is_ws(s[0]), !is_ws(s.last())
    ensures trim(s) == s
{}
proof fn trim_sp(s: Seq<char>)
    requires trim(s) == s
    ensures trim(seq![' '] + s) == s, s.len() > 0 ==> trim(s + seq![' ']) == s
{
    broadcast use ws_chars;
    let a = seq![' '] + s;
    assert(a.drop_first() =~= s);
    assert(is_ws(a[0]));
    let b = s + seq![' '];
    if s.len() > 0 {
        trimmed(s);
        assert(b[0] == s[0]);
        assert(trim_start(b) == b);
        assert(b.drop_last() =~= s);
    }
}
/// a section header
proof fn says_key(st: St, k: Seq<char>)
    requires no_nl(k)
    ensures say(Some(st), seq!['\n', '['] + k + seq![']', '\n']) == Some(St { key: k, ..st }), whole(seq!['\n', '['] + k + seq![']', '\n'])
{
    broadcast use ws_chars;
    let e = Seq::<char>::empty();
    let l = seq!['['] + k + seq![']'];
    assert(seq!['\n', '['] + k + seq![']', '\n'] =~= (e + seq!['\n']) + (l + seq!['\n']));
    say_line(Some(st), e);
    assert(trim(e).len() == 0);
    say_add(Some(st), e + seq!['\n'], l + seq!['\n']);
    assert forall|i: int| 0 <= i < l.len() implies l[i] != '\n' by { if 0 < i && i < l.len() - 1 { assert(l[i] == k[i - 1]); assert(k.contains(k[i - 1])); } }
    say_line(Some(st), l);
    assert(l[0] == '[' && l.last() == ']');
    keeps(l);
    assert(l.subrange(1, l.len() - 1) =~= k);
}
/// a text
proof fn says_text(st: St, l: Seq<char>, v: Seq<char>)
    requires clean_lang(l), clean_text(v)
    ensures say(Some(st), l + seq![' ', '=', ' '] + v + seq!['\n']) == Some(St { cat: put(st.cat, st.key, l, v), ..st }), whole(l + seq![' ', '=', ' '] + v + seq!['\n'])
{
    broadcast use ws_chars;
    let line = l + seq![' ', '=', ' '] + v;
    assert forall|i: int| 0 <= i < line.len() implies line[i] != '\n' by {
        if i < l.len() { assert(l.contains(l[i])); } else if i >= l.len() + 3 { assert(line[i] == v[i - l.len() - 3]); assert(v.contains(v[i - l.len() - 3])); }
    }
    say_line(Some(st), line);
    trimmed(l);
    let n = l.len() as int + 1;
    let t = if v.len() > 0 { line } else { l + seq![' ', '='] };
    assert(line[0] == l[0]);
    if v.len() > 0 { trimmed(v); assert(line.last() == v.last()); keeps(line); }
    else { assert(line =~= t + seq![' ']); assert(t[0] == l[0] && t.last() == '='); keeps(t); trim_sp(t); }
    assert(trim(line) == t);
    assert(t[n] == '=');
    find_eq_at(t, '=');
    assert forall|i: int| 0 <= i < n implies t[i] != '=' by { if i < l.len() { assert(t[i] == l[i]); assert(l.contains(l[i])); } }
    assert(find_eq(t, '=') == n);
    assert(t.take(n) =~= l + seq![' ']);
    trim_sp(l);
    if v.len() > 0 { assert(t.skip(n + 1) =~= seq![' '] + v); trim_sp(v); } else { assert(t.skip(n + 1) =~= v); }
    assert(t[0] == l[0]);
}
/// the first `n` entries on top of `base`
spec fn upto<T: VxEntry>(base: Map<Seq<char>, T::V>, s: Seq<T>, n: int) -> Map<Seq<char>, T::V>
    decreases n
{
    if n <= 0 { base } else { upto(base, s, n - 1).insert(s[n - 1].key(), s[n - 1].val()) }
}
proof fn upto_has<T: VxEntry>(base: Map<Seq<char>, T::V>, s: Seq<T>, n: int)
    requires 0 <= n <= s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].key() != #[trigger] s[j].key()
    ensures
        forall|k: Seq<char>| #[trigger] upto(base, s, n).dom().contains(k) <==> base.dom().contains(k) || exists|i: int| 0 <= i < n && #[trigger] s[i].key() == k,
        forall|i: int| 0 <= i < n ==> upto(base, s, n)[#[trigger] s[i].key()] == s[i].val(),
        forall|k: Seq<char>| base.dom().contains(k) && (forall|i: int| 0 <= i < n ==> #[trigger] s[i].key() != k) ==> #[trigger] upto(base, s, n)[k] == base[k],
    decreases n
{
    if n > 0 {
        upto_has(base, s, n - 1);
        let u = upto(base, s, n);
        let w = upto(base, s, n - 1);
        assert forall|k: Seq<char>| #[trigger] u.dom().contains(k) <==> base.dom().contains(k) || exists|i: int| 0 <= i < n && #[trigger] s[i].key() == k by {
            assert(u.dom().contains(k) <==> w.dom().contains(k) || k == s[n - 1].key());
        }
    }
}
proof fn upto_all<T: VxEntry>(base: Map<Seq<char>, T::V>, s: Seq<T>, m: Map<Seq<char>, T::V>, part: Map<Seq<char>, T::V>)
    requires lists(s, part), base.dom().disjoint(part.dom()), m == base.union_prefer_right(part)
    ensures upto(base, s, s.len() as int) == m
{
    upto_has(base, s, s.len() as int);
    let u = upto(base, s, s.len() as int);
    assert forall|k: Seq<char>| u.dom().contains(k) <==> #[trigger] m.dom().contains(k) by {}
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies u[k] == m[k] by {
        if part.dom().contains(k) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].key() == k; assert(u[s[i].key()] == s[i].val()); }
        else { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i].key() != k by { assert(part.dom().contains(s[i].key())); } assert(base.dom().contains(k)); assert(u[k] == base[k]); }
    }
    assert(u =~= m);
}
/// comments say nothing
proof fn says_nothing(h: Seq<char>)
    requires h == "\n# The translations are partially generated by copilot\n"@
    ensures whole(h), say(start(), h) == start()
{
    reveal_strlit("\n# The translations are partially generated by copilot\n");
    broadcast use ws_chars;
    let e = Seq::<char>::empty();
    let l = h.subrange(1, h.len() - 1);
    assert(no_nl(l)) by { assert forall|i: int| 0 <= i < l.len() implies l[i] != '\n' by { assert(l[i] == h[i + 1]); } }
    assert(h =~= (e + seq!['\n']) + (l + seq!['\n']));
    say_line(start(), e);
    assert(trim(e).len() == 0);
    say_add(start(), e + seq!['\n'], l + seq!['\n']);
    say_line(start(), l);
    assert(l[0] == '#' && l.last() == 't');
    comment(l);
}
proof fn comment(l: Seq<char>)
    requires l.len() > 0, l[0] == '#'
    ensures trim(l).len() > 0, trim(l)[0] == '#'
    decreases l.len()
{
    broadcast use ws_chars;
    if is_ws(l.last()) { comment(l.drop_last()); }
}
proof fn lit_shapes()
    ensures "\n["@ == seq!['\n', '['], "]\n"@ == seq![']', '\n'], " = "@ == seq![' ', '=', ' '], "\n"@ == seq!['\n'],
        "en = "@ == english() + seq![' ', '=', ' ']
{
    reveal_strlit("\n["); reveal_strlit("]\n"); reveal_strlit(" = "); reveal_strlit("\n"); reveal_strlit("en = "); reveal_strlit("en");
    assert("\n["@ =~= seq!['\n', '[']);
    assert("]\n"@ =~= seq![']', '\n']);
    assert(" = "@ =~= seq![' ', '=', ' ']);
    assert("\n"@ =~= seq!['\n']);
    assert("en = "@ =~= english() + seq![' ', '=', ' ']);
}
//@fn crates/tinymist-l10n/src/lib.rs serialize_translations C15
//@ret r
//@entry
    let ghost m = translations@;
    broadcast use one_char;
//@loop 0 for
    invariant
        0 <= vx_it0.pos() <= vx_it0.all().len(), lists(vx_it0.all(), m),
        whole(result@),
        clean(m) ==> say(start(), result@) is Some && say(start(), result@)->0.cat == upto(empty_cat(), vx_it0.all(), vx_it0.pos()),
        forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> m[k].dom().contains(english()),
    ensures clean(m) ==> say(start(), result@) is Some && say(start(), result@)->0.cat == m,
    decreases vx_it0.all().len() - vx_it0.pos(),
//@before 0
    proof { says_nothing(result@); }
//@loopstart 0
    let ghost n0 = vx_it0.pos();
    let ghost c0 = upto(empty_cat(), vx_it0.all(), n0);
    let ghost s0 = say(start(), result@);
    let ghost r0 = result@;
    let ghost k0 = if n0 < vx_it0.all().len() { vx_it0.all()[n0].key() } else { Seq::empty() };
    let ghost t0 = if n0 < vx_it0.all().len() { vx_it0.all()[n0].val() } else { Map::empty() };
    proof {
        if n0 < vx_it0.all().len() {
            assert(m.dom().contains(vx_it0.all()[n0].key()) && m[k0] == t0);
            assert(k0 == vx_it0.all()[n0].0@ && t0 == vx_it0.all()[n0].1@);
            upto_has(empty_cat(), vx_it0.all(), n0);
        } else { assert(empty_cat().union_prefer_right(m) =~= m); upto_all(empty_cat(), vx_it0.all(), m, m); }
    }
//@before 1
    assert(lists(data@, t0.remove(english())));
    let ghost en1 = Map::<Seq<char>, Seq<char>>::empty().insert(english(), en@);
    proof {
        if clean(m) {
            lit_shapes();
            assert(clean_texts(t0));
            let head = seq!['\n', '['] + k0 + seq![']', '\n'];
            let body = english() + seq![' ', '=', ' '] + en@ + seq!['\n'];
            says_key(s0->0, k0);
            says_text(St { key: k0, ..s0->0 }, english(), en@);
            say_add(start(), r0, head);
            assert(whole(r0 + head)) by { assert((r0 + head).last() == head.last()); }
            say_add(start(), r0 + head, body);
            assert(result@ =~= r0 + head + body);
            assert(put(c0, k0, english(), en@) =~= c0.insert(k0, en1));
            assert(result@.last() == '\n');
        } else { lit_shapes(); assert(result@.last() == '\n'); }
    }
//@loop 1 for
    invariant
        0 <= vx_it1.pos() <= vx_it1.all().len(), lists(vx_it1.all(), t0.remove(english())), en1 == Map::<Seq<char>, Seq<char>>::empty().insert(english(), t0[english()]), t0.dom().contains(english()),
        whole(result@),
        clean(m) ==> clean_texts(t0) && say(start(), result@) == Some(St { cat: c0.insert(k0, upto(en1, vx_it1.all(), vx_it1.pos())), key: k0 }),
    ensures clean(m) ==> say(start(), result@) == Some(St { cat: c0.insert(k0, t0), key: k0 }),
    decreases vx_it1.all().len() - vx_it1.pos(),
//@loopstart 1
    let ghost n1 = vx_it1.pos();
    let ghost r1 = result@;
    proof {
        if n1 == vx_it1.all().len() { assert(en1.union_prefer_right(t0.remove(english())) =~= t0); upto_all(en1, vx_it1.all(), t0, t0.remove(english())); }
        if n1 < vx_it1.all().len() {
            let e = vx_it1.all()[n1];
            assert(t0.remove(english()).dom().contains(e.key()));
            lit_shapes();
            if clean(m) {
                let line = e.0@ + seq![' ', '=', ' '] + e.1@ + seq!['\n'];
                let u = upto(en1, vx_it1.all(), n1);
                says_text(St { cat: c0.insert(k0, u), key: k0 }, e.0@, e.1@);
                say_add(start(), r1, line);
                assert(put(c0.insert(k0, u), k0, e.0@, e.1@) =~= c0.insert(k0, u.insert(e.0@, e.1@)));
            }
        }
    }
//@loopend 1
    proof {
        let e = vx_it1.all()[n1];
        assert(result@ =~= r1 + (e.0@ + seq![' ', '=', ' '] + e.1@ + seq!['\n']));
        assert(result@.last() == '\n');
    }
//@spec
    requires forall|k: Seq<char>| #[trigger] translations@.dom().contains(k) ==> translations@[k].dom().contains(english())
    ensures clean(translations@) ==> meaning(r@, true) == Some(translations@),
//@end
}
fn main() {}
