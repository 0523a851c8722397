// Unit: the lazily computed query cell (C17).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@option once_cell keep_closures
//@rw type OnceLock<Result<$a, $b>> => VxOnce<$a, $b, QueryContext>
//@rw type Mutex<Option<$q>> => VxCtx<Res, Err, $q>
//@rw expr OnceLock::new() => VxOnce::new()
//@rw expr Mutex::new($x) => VxCtx::new($x)
//@rw expr $m.lock().take() => $m.vx_take()
//@rw expr $m.lock().is_some() => $m.vx_some()
//@rw expr $m.lock().is_none() => !$m.vx_some()
//@rw expr $m.get() => $m.vx_peek()
//@rw expr $r.as_ref() => vx_as_ref($r)
//@rw expr Clone::clone(vx_e) => vx_clone(vx_e)
//@rw expr E::clone(vx_e) => vx_clone(vx_e)
//@rw expr $e.clone() => vx_clone($e)
//@rw expr f($x) => vx_run(f, $x)
//@thread vx_take vx_some vx_peek vx_init vx_run compute_with_context
//@threadpath VxOnce::new VxCtx::new
use vstd::prelude::*;
verus! {
uninterp spec fn vx_vac(k: int) -> bool;
fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
fn vx_panic<T>() -> T requires false { unimplemented!() }
/// the state of one query cell and what was run for it
tracked struct World<T, E, Q> {
    ghost cell: Option<Result<T, E>>,
    ghost ctx: Option<Q>,
    /// contexts the computation was run with, and what it gave
    ghost runs: Seq<(Q, Result<T, E>)>,
}
/// std's OnceLock: set once, by the one computation that is run for it
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
#[verifier::accept_recursive_types(E)]
#[verifier::accept_recursive_types(Q)]
struct VxOnce<T, E, Q> { p: core::marker::PhantomData<(T, E, Q)> }
impl<T, E, Q> VxOnce<T, E, Q> {
    #[verifier::external_body]
    fn new(Tracked(w): Tracked<&mut World<T, E, Q>>) -> (r: Self)
        ensures *final(w) == (World { cell: None, ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    fn vx_peek(&self, Tracked(w): Tracked<&mut World<T, E, Q>>) -> (r: Option<&Result<T, E>>)
        ensures *final(w) == *old(w), r is Some <==> old(w).cell is Some, r is Some ==> Some(*(r->0)) == old(w).cell { unimplemented!() }
    /// what get_or_init does with the computed value: the cell was empty and is full from now on
    #[verifier::external_body]
    fn vx_init(&self, v: Result<T, E>, Tracked(w): Tracked<&mut World<T, E, Q>>) -> (r: &Result<T, E>)
        requires old(w).cell is None
        ensures *r == v, *final(w) == (World { cell: Some(v), ..*old(w) }) { unimplemented!() }
    /// OnceLock::set
    #[verifier::external_body]
    fn set(&self, v: Result<T, E>, Tracked(w): Tracked<&mut World<T, E, Q>>) -> (r: Result<(), Result<T, E>>)
        ensures old(w).cell is Some ==> *final(w) == *old(w) && r == Err::<(), Result<T, E>>(v),
            old(w).cell is None ==> *final(w) == (World { cell: Some(v), ..*old(w) }) && r is Ok { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
#[verifier::accept_recursive_types(E)]
#[verifier::accept_recursive_types(Q)]
struct VxCtx<T, E, Q> { p: core::marker::PhantomData<(T, E, Q)> }
impl<T, E, Q> VxCtx<T, E, Q> {
    #[verifier::external_body]
    fn new(q: Option<Q>, Tracked(w): Tracked<&mut World<T, E, Q>>) -> (r: Self)
        ensures *final(w) == (World { ctx: q, ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    fn vx_take(&self, Tracked(w): Tracked<&mut World<T, E, Q>>) -> (r: Option<Q>)
        ensures r == old(w).ctx, *final(w) == (World { ctx: None, ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    fn vx_some(&self, Tracked(w): Tracked<&mut World<T, E, Q>>) -> (r: bool)
        ensures r == (old(w).ctx is Some), *final(w) == *old(w) { unimplemented!() }
}
/// the caller's computation
#[verifier::external_body]
fn vx_run<T, E, Q, F: FnOnce(Q) -> Result<T, E>>(f: F, q: Q, Tracked(w): Tracked<&mut World<T, E, Q>>) -> (r: Result<T, E>)
    requires f.requires((q,))
    ensures f.ensures((q,), r), *final(w) == (World { runs: old(w).runs.push((q, r)), ..*old(w) }) { unimplemented!() }
#[verifier::external_body]
fn vx_as_ref<T, E>(r: &Result<T, E>) -> (o: Result<&T, &E>)
    ensures r is Ok <==> o is Ok, r is Ok ==> *(o->Ok_0) == r->Ok_0, r is Err ==> *(o->Err_0) == r->Err_0 { unimplemented!() }
uninterp spec fn a_copy<E>(a: E, b: E) -> bool;
#[verifier::external_body]
fn vx_clone<E>(e: &E) -> (r: E) ensures a_copy(*e, r) { unimplemented!() }

/// empty only while there is something to compute with
spec fn wf<T, E, Q>(w: World<T, E, Q>) -> bool { w.cell is None ==> w.ctx is Some }
/// what a reader sees of a result
spec fn seen<T, E>(c: Result<T, E>, r: Result<&T, E>) -> bool {
    match c { Ok(v) => r is Ok && *(r->Ok_0) == v, Err(e) => r is Err && a_copy(e, r->Err_0) }
}
//@type crates/tinymist-std/src/concepts/query.rs QueryRef #[verifier::reject_recursive_types(Res)]#[verifier::reject_recursive_types(Err)]#[verifier::reject_recursive_types(QueryContext)]
impl<T, E, QC> QueryRef<T, E, QC> {
//@fn crates/tinymist-std/src/concepts/query.rs QueryRef::with_value C17
//@world Tracked(w): Tracked<&mut World<T, E, QC>>
//@ret r
    ensures wf(*final(w)), final(w).cell == Some(Ok::<T, E>(value)), final(w).runs == old(w).runs,
//@end
//@fn crates/tinymist-std/src/concepts/query.rs QueryRef::with_context C17
//@world Tracked(w): Tracked<&mut World<T, E, QC>>
//@ret r
    ensures wf(*final(w)), final(w).cell is None, final(w).ctx == Some(ctx), final(w).runs == old(w).runs,
//@end
}
impl<T, E: Clone, QC> QueryRef<T, E, QC> {
//@fn crates/tinymist-std/src/concepts/query.rs QueryRef::compute_with_context C17
//@world Tracked(w): Tracked<&mut World<T, E, QC>>
//@ret r
    requires wf(*old(w)), forall|q: QC| f.requires((q,))
    ensures wf(*final(w)), final(w).cell is Some, seen(final(w).cell->0, r),
        // computed before: nothing is run, nothing changes
        old(w).cell is Some ==> *final(w) == *old(w),
        // else the computation is run once, with the context, and its result is what stays
        old(w).cell is None ==> final(w).runs == old(w).runs.push((old(w).ctx->0, final(w).cell->0)) && f.ensures((old(w).ctx->0,), final(w).cell->0),
//@end
//@fn crates/tinymist-std/src/concepts/query.rs QueryRef::compute C17
//@world Tracked(w): Tracked<&mut World<T, E, QC>>
//@ret r
    requires wf(*old(w)), f.requires(())
    ensures wf(*final(w)), final(w).cell is Some, seen(final(w).cell->0, r),
        old(w).cell is Some ==> *final(w) == *old(w),
        old(w).cell is None ==> final(w).runs.len() == old(w).runs.len() + 1,
//@end
//@fn crates/tinymist-std/src/concepts/query.rs QueryRef::get_uninitialized C17
//@world Tracked(w): Tracked<&mut World<T, E, QC>>
//@ret r
    ensures *final(w) == *old(w), r is Some <==> old(w).cell is Some, r is Some ==> Some(*(r->0)) == old(w).cell,
//@end
}
impl<T, E> QueryRef<T, E> {
//@fn crates/tinymist-std/src/concepts/query.rs Default@QueryRef::default C17
//@world Tracked(w): Tracked<&mut World<T, E, ()>>
//@ret r
    ensures wf(*final(w)), final(w).cell is None, final(w).runs == old(w).runs,
//@end
}
}
fn main() {}
