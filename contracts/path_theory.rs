//@include path_core.rs
spec fn ups(n: nat) -> Seq<Comp> { Seq::new(n, |i: int| Comp::ParentDir) }
/// climbing over names
proof fn cl_ups(b: Seq<Comp>, n: nat)
    requires canon(b), n <= b.len(), forall|i: int| b.len() - n <= i < b.len() ==> #[trigger] b[i] is Normal
    ensures cl(b + ups(n)) =~= b.take(b.len() - n)
    decreases n
{
    if n == 0 {
        assert(b + ups(0) =~= b);
        canon_cl(b);
        assert(b.take(b.len() as int) =~= b);
    } else {
        cl_ups(b, (n - 1) as nat);
        assert((b + ups(n)).drop_last() =~= b + ups((n - 1) as nat));
        assert((b + ups(n)).last() is ParentDir);
        let m = b.take(b.len() - n + 1);
        assert(m.last() == b[b.len() - n]);
        assert(m.drop_last() =~= b.take(b.len() - n));
    }
}
/// how far two paths go together
spec fn common(a: Seq<Comp>, b: Seq<Comp>) -> int
    decreases a.len()
{ if a.len() > 0 && b.len() > 0 && a[0] == b[0] { 1 + common(a.skip(1), b.skip(1)) } else { 0 } }
proof fn common_facts(a: Seq<Comp>, b: Seq<Comp>)
    ensures 0 <= common(a, b) <= a.len(), common(a, b) <= b.len(), a.take(common(a, b)) =~= b.take(common(a, b)),
        common(a, b) < a.len() && common(a, b) < b.len() ==> a[common(a, b)] != b[common(a, b)],
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        common_facts(a.skip(1), b.skip(1));
        let k = common(a.skip(1), b.skip(1));
        assert(a.take(k + 1) =~= seq![a[0]] + a.skip(1).take(k));
        assert(b.take(k + 1) =~= seq![b[0]] + b.skip(1).take(k));
    }
}
/// the pathdiff crate on paths without '.' (assumed)
spec fn dp(a: Seq<Comp>, b: Seq<Comp>) -> Option<Seq<Comp>> {
    if abs(a) != abs(b) { if abs(a) { Some(a) } else { None } } else {
        let k = common(a, b);
        let (ra, rb) = (a.skip(k), b.skip(k));
        if rb.len() == 0 { Some(ra) } else if ra.len() > 0 && rb[0] is ParentDir { None } else { Some(ups(rb.len()) + ra) }
    }
}
spec fn lead(a: Seq<Comp>, c: Comp) -> int
    decreases a.len()
{ if a.len() > 0 && a[0] == c { 1 + lead(a.skip(1), c) } else { 0 } }
spec fn all_ups(a: Seq<Comp>, k: int) -> bool { forall|i: int| 0 <= i < k ==> #[trigger] a[i] is ParentDir }
proof fn lead_facts(a: Seq<Comp>)
    ensures 0 <= lead(a, Comp::ParentDir) <= a.len(), all_ups(a, lead(a, Comp::ParentDir)),
        lead(a, Comp::ParentDir) < a.len() ==> !(a[lead(a, Comp::ParentDir)] is ParentDir),
    decreases a.len()
{
    if a.len() > 0 && a[0] is ParentDir {
        lead_facts(a.skip(1));
        let k = lead(a.skip(1), Comp::ParentDir);
        assert forall|i: int| 0 <= i < k + 1 implies #[trigger] a[i] is ParentDir by { if i > 0 { assert(a[i] == a.skip(1)[i - 1]); } }
        if k + 1 < a.len() { assert(a[k + 1] == a.skip(1)[k]); }
    }
}
/// a cleaned path that is not below its leading '..' has only names there
proof fn names_after(b: Seq<Comp>, k: int)
    requires canon(b), 0 <= k <= b.len(), k >= lead(b, Comp::ParentDir), abs(b) ==> k > 0
    ensures forall|i: int| k <= i < b.len() ==> #[trigger] b[i] is Normal
    decreases b.len() - k
{
    lead_facts(b);
    let l = lead(b, Comp::ParentDir);
    assert forall|i: int| l <= i < b.len() implies !(#[trigger] b[i] is ParentDir) by { no_ups(b, l, i); }
}
proof fn no_ups(b: Seq<Comp>, l: int, i: int)
    requires canon(b), 0 <= l <= i < b.len(), !(b[l] is ParentDir)
    ensures !(b[i] is ParentDir)
    decreases i
{ if i > l { no_ups(b, l, i - 1); } }
/// the answer `diff` gives for paths that lead to `a` and `b`
spec fn answer(a: Seq<Comp>, b: Seq<Comp>) -> Option<Seq<Comp>> {
    if !abs(a) && lead(b, Comp::ParentDir) > lead(a, Comp::ParentDir) { None } else { dp(a, b) }
}
spec fn joined(b: Seq<Comp>, d: Seq<Comp>) -> Seq<Comp> { if abs(d) { d } else { b + d } }
/// C11 on cleaned paths: whatever is answered leads back, and absolute paths have an answer
proof fn leads_back(a: Seq<Comp>, b: Seq<Comp>)
    requires canon(a), canon(b)
    ensures answer(a, b) is Some ==> cl(joined(b, answer(a, b)->0)) =~= a, abs(a) && abs(b) ==> answer(a, b) is Some
{
    common_facts(a, b);
    let k = common(a, b);
    let (ra, rb) = (a.skip(k), b.skip(k));
    lead_facts(a);
    lead_facts(b);
    if abs(a) != abs(b) {
        canon_cl(a);
    } else {
        assert(abs(a) && abs(b) ==> k > 0);
        let la = lead(a, Comp::ParentDir);
        let lb = lead(b, Comp::ParentDir);
        if abs(b) { assert(lb == 0); assert(la == 0); }
        if abs(a) && abs(b) && rb.len() > 0 { assert(rb[0] == b[k]); names_after(b, k); }
        if answer(a, b) is Some {
            let d = answer(a, b)->0;
            if rb.len() == 0 {
                assert(b =~= b.take(k));
                assert(!abs(d)) by { if d.len() > 0 { assert(d[0] == a[k]); if k == 0 { assert(!abs(a)); } } }
                assert(b + d =~= a);
                canon_cl(a);
            } else {
                assert(rb[0] == b[k]);
                // nothing of what is left of the base is '..'
                if k < lb {
                    assert(b[k] is ParentDir);
                    assert(ra.len() == 0);
                    assert(a =~= a.take(k));
                    assert(la <= k);
                    assert(!abs(a));
                    assert(false);
                }
                names_after(b, k);
                let n = rb.len();
                assert(!abs(d)) by { assert(d[0] is ParentDir); }
                cl_ups(b, n);
                assert(b.take(b.len() - n) =~= b.take(k));
                join_canon(b + ups(n), a, k);
                assert(b + d =~= (b + ups(n)) + ra);
            }
        }
    }
}
/// going on from where a cleaned path was left
proof fn join_canon(x: Seq<Comp>, a: Seq<Comp>, k: int)
    requires canon(a), 0 <= k <= a.len(), cl(x) == a.take(k)
    ensures cl(x + a.skip(k)) =~= a
    decreases a.len() - k
{
    join_upto(x, a, k, a.len() as int);
    assert(a.subrange(k, a.len() as int) =~= a.skip(k));
    assert(a.take(a.len() as int) =~= a);
}
proof fn join_upto(x: Seq<Comp>, a: Seq<Comp>, k: int, m: int)
    requires canon(a), 0 <= k <= m <= a.len(), cl(x) == a.take(k)
    ensures cl(x + a.subrange(k, m)) =~= a.take(m)
    decreases m - k
{
    if m == k {
        assert(x + a.subrange(k, m) =~= x);
    } else {
        join_upto(x, a, k, m - 1);
        let y = x + a.subrange(k, m);
        assert(y.drop_last() =~= x + a.subrange(k, m - 1));
        assert(y.last() == a[m - 1]);
        assert(a.take(m) =~= a.take(m - 1).push(a[m - 1]));
        let p = a.take(m - 1);
        if p.len() > 0 { assert(p.last() == a[m - 2]); }
    }
}
/// from any base that leads to `b`, not only the cleaned one
proof fn leads_back_from(fr: Seq<Comp>, to: Seq<Comp>)
    requires wfc(fr), wfc(to)
    ensures answer(cl(fr), cl(to)) is Some ==> cl(joined(to, answer(cl(fr), cl(to))->0)) =~= cl(fr), abs(fr) && abs(to) ==> answer(cl(fr), cl(to)) is Some
{
    cl_canon(fr);
    cl_canon(to);
    leads_back(cl(fr), cl(to));
    if answer(cl(fr), cl(to)) is Some { cl_join(to, answer(cl(fr), cl(to))->0); }
}
//@include path_std.rs
#[verifier::external_body]
fn vx_lead(p: &Path, a: Component<'_>) -> (r: usize) ensures r == lead(comps(p@), a.c()) { unimplemented!() }
#[verifier::external_body]
fn vx_diff_paths(a: &Path, b: &Path) -> (r: Option<Path>)
    ensures (forall|i: int| 0 <= i < comps(a@).len() ==> !(#[trigger] comps(a@)[i] is CurDir)) && (forall|i: int| 0 <= i < comps(b@).len() ==> !(#[trigger] comps(b@)[i] is CurDir))
        ==> (r is Some <==> dp(comps(a@), comps(b@)) is Some) && (r is Some ==> comps((r->0)@) == dp(comps(a@), comps(b@))->0) { unimplemented!() }
