// Shared stubs of the sync-ls units: everything here is an ASSUMED contract
// (std / serde_json / crossbeam / tokio behaviour), none of it is verified.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
use vstd::prelude::*;
verus! {

uninterp spec fn vx_vac(k: int) -> bool;
// ---- opaque values -------------------------------------------------------
/// an owned text (`String`); only identity matters in these units
#[verifier::external_body]
struct Str { x: u8 }
impl Str {
    #[verifier::external_body]
    fn clone(&self) -> (r: Str) ensures r == *self { unimplemented!() }
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn vx_eq(&self, o: &str) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
}
trait VxSame { spec fn same(&self, s: Str) -> bool; }
impl VxSame for Str { spec fn same(&self, s: Str) -> bool { *self == s } }
impl VxSame for str { spec fn same(&self, s: Str) -> bool { s@ == self@ } }
impl<T: VxSame + ?Sized> VxSame for &T { spec fn same(&self, s: Str) -> bool { (**self).same(s) } }
/// an owned copy of a text
#[verifier::external_body]
fn vx_string<T: VxSame + ?Sized>(t: &T) -> (r: Str) ensures t.same(r) { unimplemented!() }
trait VxTxt { spec fn tx(&self) -> Seq<char>; }
impl VxTxt for Str { spec fn tx(&self) -> Seq<char> { self@ } }
impl VxTxt for str { spec fn tx(&self) -> Seq<char> { self@ } }
impl<T: VxTxt + ?Sized> VxTxt for &T { spec fn tx(&self) -> Seq<char> { (**self).tx() } }
#[verifier::external_body]
fn vx_starts_with<A: VxTxt + ?Sized>(a: &A, b: &str) -> (r: bool) ensures r == b@.is_prefix_of(a.tx()) { unimplemented!() }
#[verifier::external_body]
fn vx_ends_with<A: VxTxt + ?Sized>(a: &A, b: &str) -> (r: bool) ensures r == b@.is_suffix_of(a.tx()) { unimplemented!() }
uninterp spec fn same_ignoring_case(a: Seq<char>, b: Seq<char>) -> bool;
#[verifier::external_body]
fn vx_eq_ignore_case<A: VxTxt + ?Sized>(a: &A, b: &str) -> (r: bool) ensures r == same_ignoring_case(a.tx(), b@) { unimplemented!() }
#[verifier::external_body]
fn vx_contains_str<A: VxTxt + ?Sized>(a: &A, b: &str) -> (r: bool) ensures a.tx() == b@ ==> r { unimplemented!() }
#[verifier::external_body]
fn vx_text_empty<A: VxTxt + ?Sized>(a: &A) -> (r: bool) ensures r == (a.tx().len() == 0) { unimplemented!() }
/// serde_json::Value
#[verifier::external_body]
struct JsonValue { x: u8 }
impl JsonValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: JsonValue) ensures r == *self { unimplemented!() }
    // looking into a value: nothing is known about what is found
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&JsonValue>) { unimplemented!() }
    #[verifier::external_body]
    fn as_str(&self) -> (r: Option<&Str>) { unimplemented!() }
    #[verifier::external_body]
    fn as_bool(&self) -> (r: Option<bool>) { unimplemented!() }
    #[verifier::external_body]
    fn as_i64(&self) -> (r: Option<i64>) { unimplemented!() }
    #[verifier::external_body]
    fn as_u64(&self) -> (r: Option<u64>) { unimplemented!() }
    #[verifier::external_body]
    fn as_array(&self) -> (r: Option<&Vec<JsonValue>>) { unimplemented!() }
    #[verifier::external_body]
    fn is_null(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn is_object(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn is_array(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn is_string(&self) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
struct Instant { x: u8 }
impl Instant {
    #[verifier::external_body]
    fn now() -> (r: Instant) { unimplemented!() }
}
#[verifier::external_body]
fn vx_format() -> (r: Str) { unimplemented!() }
#[verifier::external_body]
fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }
fn vx_assert(b: bool) requires b {}
/// the JSON text of a value
uninterp spec fn to_json<P>(p: P) -> JsonValue;
/// whether a value can be turned into JSON (false for e.g. maps with non-text keys)
uninterp spec fn json_ok<P>(p: P) -> bool;

// ---- std HashMap, keyed by structurally compared keys ---------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
                r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
                forall|x: K| #[trigger] final(self)@.dom().contains(x) <==> old(self)@.dom().contains(x) && x != *k,
                forall|x: K| x != *k ==> #[trigger] final(self)@[x] == old(self)@[x],
                !old(self)@.dom().contains(*k) ==> final(self)@ == old(self)@,
                r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(*k) { Some(&self@[*k]) } else { None::<&V> }),
    { unimplemented!() }
}
}
