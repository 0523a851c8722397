// Shared by the units path and respath: paths as texts and components, and std's stand-ins.
// ---- components of a text (std's definition for Unix) ------------------------------
#[verifier::ext_equal]
enum Comp { Prefix, RootDir, CurDir, ParentDir, Normal(Seq<char>) }
spec fn dot() -> Seq<char> { seq!['.'] }
spec fn dotdot() -> Seq<char> { seq!['.', '.'] }
/// the place of the last slash, -1 if there is none
spec fn last_slash(t: Seq<char>) -> int
    decreases t.len()
{ if t.len() == 0 { -1 } else if t.last() == '/' { t.len() - 1 } else { last_slash(t.drop_last()) } }
spec fn seg(n: Seq<char>) -> Seq<Comp> {
    if n.len() == 0 || n =~= dot() { Seq::empty() } else if n =~= dotdot() { seq![Comp::ParentDir] } else { seq![Comp::Normal(n)] }
}
spec fn segs(t: Seq<char>) -> Seq<Comp>
    decreases t.len()
    via segs_dec
{ let i = last_slash(t); if i < 0 { seg(t) } else { segs(t.take(i)) + seg(t.skip(i + 1)) } }
#[via_fn]
proof fn segs_dec(t: Seq<char>) { slash_facts(t); }
spec fn head(t: Seq<char>) -> Seq<Comp> {
    if t.len() > 0 && t[0] == '/' { seq![Comp::RootDir] }
    else if t.len() > 0 && t[0] == '.' && (t.len() == 1 || t[1] == '/') { seq![Comp::CurDir] }
    else { Seq::empty() }
}
spec fn comps(t: Seq<char>) -> Seq<Comp> { head(t) + segs(t) }
proof fn slash_facts(t: Seq<char>)
    ensures -1 <= last_slash(t) < t.len() || t.len() == 0 && last_slash(t) == -1,
        last_slash(t) >= 0 ==> t[last_slash(t)] == '/',
        forall|k: int| last_slash(t) < k < t.len() ==> t[k] != '/',
    decreases t.len()
{ if t.len() > 0 && t.last() != '/' { slash_facts(t.drop_last()); assert(forall|k: int| 0 <= k < t.len() - 1 ==> t.drop_last()[k] == t[k]); } }
proof fn slash_at(t: Seq<char>, i: int)
    requires -1 <= i < t.len(), i >= 0 ==> t[i] == '/', forall|k: int| i < k < t.len() ==> t[k] != '/'
    ensures last_slash(t) == i
{ slash_facts(t); }
spec fn is_name(c: Comp) -> bool { c is ParentDir || c is Normal }
spec fn name_ok(n: Seq<char>) -> bool { n.len() > 0 && !(n =~= dot()) && !(n =~= dotdot()) && forall|k: int| 0 <= k < n.len() ==> n[k] != '/' }
/// what the components of any text look like
spec fn wfc(cs: Seq<Comp>) -> bool {
    forall|i: int| 0 <= i < cs.len() ==> match #[trigger] cs[i] { Comp::Prefix => false, Comp::RootDir => i == 0, Comp::CurDir => i == 0, Comp::ParentDir => true, Comp::Normal(n) => name_ok(n) }
}
proof fn segs_wf(t: Seq<char>)
    ensures forall|i: int| 0 <= i < segs(t).len() ==> match #[trigger] segs(t)[i] { Comp::ParentDir => true, Comp::Normal(n) => name_ok(n), _ => false }
    decreases t.len()
{
    slash_facts(t);
    let i = last_slash(t);
    if i >= 0 { segs_wf(t.take(i)); }
}
proof fn comps_wf(t: Seq<char>) ensures wfc(comps(t)) { segs_wf(t); }

// ---- the rendering with slashes ---------------------------------------------------------
spec fn sep(d: Seq<Comp>) -> Seq<char> { if d.len() > 0 && is_name(d.last()) { seq!['/'] } else { Seq::empty() } }
spec fn render(cs: Seq<Comp>) -> Seq<char>
    decreases cs.len()
{
    if cs.len() == 0 { Seq::empty() } else {
        let d = cs.drop_last();
        match cs.last() {
            Comp::Prefix => render(d),
            Comp::RootDir => render(d).push('/'),
            Comp::CurDir => render(d),
            Comp::ParentDir => render(d) + sep(d) + dotdot(),
            Comp::Normal(n) => render(d) + sep(d) + n,
        }
    }
}
spec fn slashed(cs: Seq<Comp>) -> Seq<char> { if render(cs).len() == 0 { dot() } else { render(cs) } }
/// the components without the current-directory marker
spec fn undot(cs: Seq<Comp>) -> Seq<Comp> { if cs.len() > 0 && cs[0] is CurDir { cs.skip(1) } else { cs } }
proof fn head_of(n: Seq<char>) requires name_ok(n) || n =~= dotdot() ensures head(n) =~= Seq::empty(), segs(n) =~= seg(n), seg(n).len() == 1
{ slash_at(n, -1); }
/// appending a name to a text appends its component
proof fn append(t: Seq<char>, n: Seq<char>)
    requires name_ok(n) || n =~= dotdot(), t.len() > 0
    ensures segs(t + seq!['/'] + n) =~= segs(t) + seg(n), head(t + seq!['/'] + n) =~= head(t)
{
    let u = t + seq!['/'] + n;
    assert forall|k: int| t.len() < k < u.len() implies u[k] != '/' by { assert(u[k] == n[k - t.len() - 1]); }
    slash_at(u, t.len() as int);
    assert(u.take(t.len() as int) =~= t);
    assert(u.skip(t.len() as int + 1) =~= n);
    assert(u[0] == t[0]);
    if t.len() > 1 { assert(u[1] == t[1]); }
}
proof fn render_comps(cs: Seq<Comp>)
    requires wfc(cs), cs.len() > 0 ==> !(cs[0] is CurDir)
    ensures comps(render(cs)) =~= cs, cs.len() > 0 <==> render(cs).len() > 0
    decreases cs.len()
{
    if cs.len() > 0 {
        let d = cs.drop_last();
        assert(wfc(d)) by { assert(forall|i: int| 0 <= i < d.len() ==> d[i] == cs[i]); }
        render_comps(d);
        let n = if cs.last() is ParentDir { dotdot() } else if cs.last() is Normal { cs.last()->0 } else { Seq::empty() };
        match cs.last() {
            Comp::RootDir => {
                assert(cs.len() == 1);
                let u = seq!['/'];
                assert(render(d).push('/') =~= u);
                slash_at(u, 0);
                assert(u.take(0) =~= Seq::<char>::empty());
                assert(u.skip(1) =~= Seq::<char>::empty());
                slash_facts(Seq::<char>::empty());
                assert(segs(u) =~= Seq::<Comp>::empty());
                assert(comps(u) =~= seq![Comp::RootDir]);
                assert(cs =~= seq![Comp::RootDir]);
            }
            Comp::ParentDir | Comp::Normal(_) => {
                assert(seg(n) =~= seq![cs.last()]);
                if d.len() == 0 {
                    assert(render(cs) =~= n);
                    head_of(n);
                } else if is_name(d.last()) {
                    append(render(d), n);
                    assert(render(cs) == render(d) + seq!['/'] + n);
                } else {
                    assert(d.len() == 1);
                    assert(d.drop_last() =~= Seq::<Comp>::empty());
                    assert(render(d.drop_last()) =~= Seq::<char>::empty());
                    assert(render(d) =~= seq!['/']);
                    let u = seq!['/'] + n;
                    assert(render(cs) =~= u);
                    assert forall|k: int| 0 < k < u.len() implies u[k] != '/' by { assert(u[k] == n[k - 1]); }
                    slash_at(u, 0);
                    assert(u.take(0) =~= Seq::<char>::empty());
                    assert(u.skip(1) =~= n);
                    slash_facts(Seq::<char>::empty());
                    assert(segs(Seq::<char>::empty()) =~= Seq::<Comp>::empty());
                    assert(last_slash(u) == 0);
                    assert(segs(u) == segs(u.take(0)) + seg(u.skip(1)));
                    assert(segs(u) =~= seg(n));
                }
                assert(cs =~= d.push(cs.last()));
            }
            _ => {}
        }
    }
}
proof fn render_undot(cs: Seq<Comp>)
    requires wfc(cs)
    ensures render(cs) =~= render(undot(cs)), wfc(undot(cs)), undot(cs).len() > 0 ==> !(undot(cs)[0] is CurDir)
    decreases cs.len()
{
    assert(forall|i: int| 0 <= i < undot(cs).len() ==> undot(cs)[i] == cs[i + cs.len() - undot(cs).len()]);
    if cs.len() > 0 {
        let d = cs.drop_last();
        assert(wfc(d)) by { assert(forall|i: int| 0 <= i < d.len() ==> d[i] == cs[i]); }
        render_undot(d);
        if cs.len() > 1 {
            assert(undot(cs).drop_last() =~= undot(d));
            assert(undot(cs).last() == cs.last());
            assert(sep(d) =~= sep(undot(d)));
        } else if cs[0] is CurDir {
            assert(undot(cs) =~= Seq::<Comp>::empty());
            assert(d =~= Seq::<Comp>::empty());
        }
    }
}
/// C10, first half, for every text
proof fn slash_faithful(t: Seq<char>)
    ensures
        undot(comps(slashed(comps(t)))) =~= undot(comps(t)),
        slashed(comps(slashed(comps(t)))) =~= slashed(comps(t)),
        slashed(comps(t)).len() > 0,
        (t.len() > 0 && t[0] == '/') <==> slashed(comps(t))[0] == '/',
{
    let cs = comps(t);
    comps_wf(t);
    render_undot(cs);
    render_comps(undot(cs));
    let u = slashed(cs);
    comps_wf(u);
    render_undot(comps(u));
    if render(cs).len() == 0 {
        assert(u =~= dot());
        slash_at(u, -1);
        assert(comps(u) =~= seq![Comp::CurDir]);
        assert(undot(comps(u)) =~= Seq::<Comp>::empty());
    } else {
        assert(comps(u) =~= undot(cs));
    }
    assert(cs.len() > 0 && cs[0] is RootDir <==> t.len() > 0 && t[0] == '/') by { segs_wf(t); }
    assert(comps(u).len() > 0 && comps(u)[0] is RootDir <==> u[0] == '/') by { segs_wf(u); }
}

// ---- lexical normalisation ----------------------------------------------------------------
/// up to the parent: nothing above a root or an empty path
spec fn up(a: Seq<Comp>) -> Seq<Comp> { if a.len() > 0 && !(a.last() is RootDir) && !(a.last() is Prefix) { a.drop_last() } else { a } }
spec fn step(a: Seq<Comp>, c: Comp) -> Seq<Comp> {
    match c { Comp::Prefix => a, Comp::RootDir => seq![Comp::RootDir], Comp::CurDir => a, Comp::ParentDir => up(a), Comp::Normal(n) => a.push(c) }
}
spec fn norm(cs: Seq<Comp>) -> Seq<Comp>
    decreases cs.len()
{ if cs.len() == 0 { Seq::empty() } else { step(norm(cs.drop_last()), cs.last()) } }
spec fn plain(cs: Seq<Comp>) -> bool { forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i] is Normal || i == 0 && cs[i] is RootDir }
/// C10, second half: no '.' or '..' is left, roots stay, and doing it again changes nothing
proof fn norm_facts(cs: Seq<Comp>)
    requires wfc(cs)
    ensures plain(norm(cs)), norm(norm(cs)) =~= norm(cs), cs.len() > 0 && cs[0] is RootDir <==> norm(cs).len() > 0 && norm(cs)[0] is RootDir
    decreases cs.len()
{
    if cs.len() > 0 {
        let d = cs.drop_last();
        assert(wfc(d)) by { assert(forall|i: int| 0 <= i < d.len() ==> d[i] == cs[i]); }
        norm_facts(d);
    }
    plain_norm(norm(cs));
}
proof fn plain_norm(p: Seq<Comp>)
    requires plain(p)
    ensures norm(p) =~= p
    decreases p.len()
{ if p.len() > 0 { assert(plain(p.drop_last())) by { assert(forall|i: int| 0 <= i < p.len() - 1 ==> p.drop_last()[i] == p[i]); } plain_norm(p.drop_last()); } }
/// '..' undoes the name before it, and '.' does nothing
proof fn norm_resolves(cs: Seq<Comp>, n: Seq<char>)
    ensures norm(cs.push(Comp::Normal(n)).push(Comp::ParentDir)) =~= norm(cs), norm(cs.push(Comp::CurDir)) =~= norm(cs)
{
    let a = cs.push(Comp::Normal(n));
    assert(a.drop_last() =~= cs);
    assert(norm(a) =~= norm(cs).push(Comp::Normal(n)));
    assert(norm(a).drop_last() =~= norm(cs));
    let b = a.push(Comp::ParentDir);
    assert(b.drop_last() =~= a);
    assert(norm(b) == step(norm(a), Comp::ParentDir));
    assert(cs.push(Comp::CurDir).drop_last() =~= cs);
}

// ---- cleaning and differences --------------------------------------------------------------
spec fn abs(cs: Seq<Comp>) -> bool { cs.len() > 0 && cs[0] is RootDir }
spec fn cstep(a: Seq<Comp>, c: Comp) -> Seq<Comp> {
    match c {
        Comp::CurDir => a,
        Comp::ParentDir => if a.len() > 0 && a.last() is RootDir { a } else if a.len() > 0 && a.last() is Normal { a.drop_last() } else { a.push(c) },
        _ => a.push(c),
    }
}
/// where a path leads: its cleaned components, the current directory being none
spec fn cl(cs: Seq<Comp>) -> Seq<Comp>
    decreases cs.len()
{ if cs.len() == 0 { Seq::empty() } else { cstep(cl(cs.drop_last()), cs.last()) } }
/// cleaned: a root or some '..', then names
spec fn canon(cs: Seq<Comp>) -> bool {
    forall|i: int| 0 <= i < cs.len() ==> match #[trigger] cs[i] { Comp::Normal(_) => true, Comp::RootDir => i == 0, Comp::ParentDir => i == 0 || cs[i - 1] is ParentDir, _ => false }
}
proof fn canon_take(cs: Seq<Comp>, n: int) requires canon(cs), 0 <= n <= cs.len() ensures canon(cs.take(n))
{ assert forall|i: int| 0 <= i < n implies match #[trigger] cs.take(n)[i] { Comp::Normal(_) => true, Comp::RootDir => i == 0, Comp::ParentDir => i == 0 || cs.take(n)[i - 1] is ParentDir, _ => false } by {
    assert(cs.take(n)[i] == cs[i]); if i > 0 { assert(cs.take(n)[i - 1] == cs[i - 1]); } } }
proof fn cl_canon(cs: Seq<Comp>)
    requires wfc(cs)
    ensures canon(cl(cs)), abs(cl(cs)) <==> abs(cs), cl(cl(cs)) == cl(cs)
    decreases cs.len()
{
    if cs.len() > 0 {
        let d = cs.drop_last();
        assert(wfc(d)) by { assert(forall|i: int| 0 <= i < d.len() ==> d[i] == cs[i]); }
        cl_canon(d);
        let a = cl(d);
        if cs.last() is ParentDir && a.len() > 0 && a.last() is Normal { canon_take(a, a.len() - 1); assert(a.drop_last() =~= a.take(a.len() - 1)); }
        assert(cs.last() is RootDir ==> d.len() == 0);
        if cs.len() == 1 { assert(a =~= Seq::<Comp>::empty()); }
    }
    canon_cl(cl(cs));
}
proof fn canon_cl(p: Seq<Comp>)
    requires canon(p)
    ensures cl(p) =~= p
    decreases p.len()
{
    if p.len() > 0 {
        canon_take(p, p.len() - 1);
        assert(p.drop_last() =~= p.take(p.len() - 1));
        canon_cl(p.drop_last());
        let i = p.len() - 1;
        if p[i] is ParentDir && i > 0 { assert(p.drop_last().last() == p[i - 1]); }
    }
}
/// what follows only depends on where the beginning leads
proof fn cl_join(b: Seq<Comp>, d: Seq<Comp>)
    requires wfc(b)
    ensures cl(b + d) == cl(cl(b) + d)
    decreases d.len()
{
    cl_canon(b);
    if d.len() > 0 {
        cl_join(b, d.drop_last());
        assert((b + d).drop_last() =~= b + d.drop_last());
        assert((cl(b) + d).drop_last() =~= cl(b) + d.drop_last());
    } else {
        assert(b + d =~= b);
        assert(cl(b) + d =~= cl(b));
    }
}
