// Unit: the sharded fingerprint map (C09).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@rw type parking_lot::RwLock<$t_list> => RwLock<$t_list>
//@rw type &mut [$t] => &mut Vec<$t>
//@rw expr (0..$n).map(|_| parking_lot::RwLock::new(HashMap::new())).collect() => vx_shards($n)
//@rw expr $s.into_iter().flat_map(|shard| shard.into_inner().into_iter()) => vx_drain($s)
//@rw expr unsafe { $e } => $e
//@rw expr std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1) => vx_threads()
//@rw type FMapBase<$t> => RwLock<HashMap<Fingerprint, $t>>
//@rw expr $n.next_power_of_two() => vx_next_pow2($n)
//@rw expr $n.is_power_of_two() => vx_is_pow2($n)
//@rw expr $n.min($k) => vx_min($n, $k)
//@rw expr $s.get_unchecked($i) => vx_get_unchecked(&$s, $i)
//@macro debug_assert => vx_assert($args)
use vstd::prelude::*;
verus! {
uninterp spec fn vx_vac(k: int) -> bool;
fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
fn vx_threads() -> (r: usize) ensures 1 <= r { unimplemented!() }
/// std: integers that are not zero
#[derive(Clone, Copy)]
struct NonZeroU32 { v: u32 }
impl NonZeroU32 {
    spec fn wf(&self) -> bool { self.v > 0 }
    #[verifier::type_invariant]
    spec fn inv(&self) -> bool { self.v > 0 }
    fn get(&self) -> (r: u32) ensures r == self.v, r > 0 { proof { use_type_invariant(self); } self.v }
    fn new(n: u32) -> (r: Option<NonZeroU32>) ensures n > 0 ==> r is Some && r->0.v == n, n == 0 ==> r is None
    { if n > 0 { Some(NonZeroU32 { v: n }) } else { None } }
}
/// powers of two
spec fn pow2(n: u32) -> bool { n > 0 && n & ((n - 1) as u32) == 0 }
#[verifier::external_body]
fn vx_next_pow2(n: u32) -> (r: u32)
    requires n <= 0x8000_0000
    ensures pow2(r), r >= n, forall|m: u32| pow2(m) && m >= n ==> r <= m { unimplemented!() }
#[verifier::external_body]
fn vx_is_pow2(n: u32) -> (r: bool) ensures r == pow2(n) { unimplemented!() }
fn vx_min(a: u32, b: u32) -> (r: u32) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
/// the map under each lock
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> HashMap<K, V> {
    uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *(r->0) == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() == Set::<K>::empty()) { unimplemented!() }
}
/// a lock seen by one thread: what it holds
struct RwLock<T> { v: T }
impl<T> RwLock<T> {
    fn new(v: T) -> (r: Self) ensures r.v == v { RwLock { v } }
    fn read(&self) -> (r: &T) ensures *r == self.v { &self.v }
    fn into_inner(self) -> (r: T) ensures r == self.v { self.v }
}
#[verifier::external_body]
fn vx_shards<V>(n: u32) -> (r: Vec<RwLock<HashMap<Fingerprint, V>>>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).v@ == Map::<Fingerprint, V>::empty() { unimplemented!() }
/// an iterator over everything in the given maps, each entry once
#[verifier::reject_recursive_types(V)]
struct VxItems<V> { ghost parts: Seq<Map<Fingerprint, V>>, k: core::marker::PhantomData<V> }
#[verifier::external_body]
fn vx_drain<V>(s: Vec<RwLock<HashMap<Fingerprint, V>>>) -> (r: VxItems<V>)
    ensures r.parts.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> #[trigger] r.parts[i] == s@[i].v@ { unimplemented!() }
#[verifier::external_body]
fn vx_get_unchecked<V>(s: &Vec<RwLock<HashMap<Fingerprint, V>>>, i: usize) -> (r: &RwLock<HashMap<Fingerprint, V>>)
    requires i < s@.len() ensures *r == s@[i as int] { unimplemented!() }

//@type crates/tinymist-std/src/hash.rs Fingerprint #[derive(Clone,Copy)]
impl Fingerprint {
    //@fn crates/tinymist-std/src/hash.rs Fingerprint::lower32 C09
    //@ret r
    ensures r == self.lo as u32,
    //@end
}
//@const crates/tinymist-std/src/adt/fmap.rs MAX_SHARD_SIZE
//@type crates/tinymist-std/src/adt/fmap.rs FingerprintMap #[verifier::reject_recursive_types(V)]
impl<V> FingerprintMap<V> {
    /// a power of two number of shards, at most the maximum, and a mask that selects one of them
    spec fn wf(&self) -> bool {
        &&& self.shards@.len() <= MAX_SHARD_SIZE
        &&& pow2(self.shards@.len() as u32)
        &&& self.mask == self.shards@.len() - 1
    }
    /// the one shard of a fingerprint
    spec fn vx_route(&self, f: Fingerprint) -> int { (f.lo as u32 & self.mask) as int }
    /// what is stored, if every item was stored in its shard
    spec fn home(&self) -> bool {
        forall|i: int, f: Fingerprint| 0 <= i < self.shards@.len() && #[trigger] self.shards@[i].v@.dom().contains(f) ==> i == self.vx_route(f)
    }
    spec fn has(&self, f: Fingerprint) -> bool { self.shards@[self.vx_route(f)].v@.dom().contains(f) }

    //@fn crates/tinymist-std/src/adt/fmap.rs FingerprintMap::new C09
    //@ret r
    //@entry
        assert(pow2(512u32)) by { assert(512u32 & 511u32 == 0) by (bit_vector); }
        assert(MAX_SHARD_SIZE == 512);
        assert forall|a: u32, m: u32| #[trigger] (a & m) <= m by { assert(a & m <= m) by (bit_vector); }
    //@spec
    ensures r.wf(), r.home(), forall|f: Fingerprint| !r.has(f),
    //@end
    //@fn crates/tinymist-std/src/adt/fmap.rs FingerprintMap::shard C09
    //@ret r
    //@entry
        assert forall|a: u32, m: u32| #[trigger] (a & m) <= m by { assert(a & m <= m) by (bit_vector); }
    //@spec
    requires self.wf(),
    ensures 0 <= self.vx_route(fg) < self.shards@.len(), *r == self.shards@[self.vx_route(fg)],
    //@end
    //@fn crates/tinymist-std/src/adt/fmap.rs FingerprintMap::contains_key C09
    //@ret r
    requires self.wf(),
    ensures r == self.has(*fg),
    //@end
    //@fn crates/tinymist-std/src/adt/fmap.rs FingerprintMap::as_mut_slice C09
    //@sig fn as_mut_slice(&mut self) -> (r: &mut Vec<RwLock<HashMap<Fingerprint, V>>>)
    ensures *r == old(self).shards, final(self).shards == *final(r), final(self).mask == old(self).mask,
    //@end
    //@fn crates/tinymist-std/src/adt/fmap.rs FingerprintMap::into_items C09
    //@sig fn into_items(self) -> (r: VxItems<V>)
    ensures r.parts.len() == self.shards@.len(), forall|i: int| 0 <= i < self.shards@.len() ==> #[trigger] r.parts[i] == self.shards@[i].v@,
    //@end
}
/// what is stored under a fingerprint is in exactly one shard, so that draining gives every item once
proof fn stored_once<V>(m: FingerprintMap<V>, f: Fingerprint, i: int)
    requires m.wf(), m.home(), 0 <= i < m.shards@.len()
    ensures m.shards@[i].v@.dom().contains(f) <==> m.has(f) && i == m.vx_route(f)
{
}
}
fn main() {}
