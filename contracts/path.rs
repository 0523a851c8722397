// Unit: textual paths (C10) and path differences (C11), on Unix. A path is its text; `comps` is std's definition of its components.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@rw type String => VStr
//@rw type PathBuf => Path
//@rw type Cow<'_, Path> => Path
//@rw expr String::with_capacity($n) => VStr::new()
//@rw expr String::new() => VStr::new()
//@rw expr PathBuf::from($x) => vx_path_from($x)
//@rw expr PathBuf::new() => vx_path_new()
//@rw expr Path::new($x) => vx_lit_path($x)
//@rw expr Cow::Owned($x) => $x
//@rw expr Cow::Borrowed($x) => vx_dup($x)
//@rw expr $x.as_ref() => &$x
//@rw expr $x.to_string_lossy() => $x.vx_text()
//@rw expr if let Some($c @ Component::Prefix(..)) = $e.cloned() { $a_list } else { $b_list } => if let Some($c) = vx_prefix_of($e) { $a_list } else { $b_list }
//@rw expr $p.components().any(|c| match c { $a | $b => true, _ => false }) ==> vx_any2($p, $a, $b)
//@rw expr $p.components().any(|c| match c { $a => true, _ => false }) ==> vx_any2($p, $a, $a)
//@rw expr $p.components().take_while(|c| match c { $a => true, _ => false }).count() ==> vx_lead($p, $a)
//@rw expr $p == vx_lit_path($x) => vx_same(&$p, vx_lit_path($x))
//@rw expr pathdiff::diff_paths($a, $b) => vx_diff_paths($a, $b)
//@macro unreachable => vx_panic()
use vstd::prelude::*;
use vstd::string::*;
verus! {
uninterp spec fn vx_vac(k: int) -> bool;
#[verifier::external_body]
fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }
//@include path_theory.rs
// ---- the functions ------------------------------------------------------------------------
/// a path without '.' and '..' leads to its own components
proof fn already_clean(cs: Seq<Comp>)
    requires wfc(cs), forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i] != Comp::ParentDir && cs[i] != Comp::CurDir
    ensures cl(cs) =~= cs
{ canon_cl(cs); }

//@fn crates/tinymist-std/src/path.rs unix_slash C10
//@ret r
//@entry
    proof { comps_wf(root@); slash_faithful(root@); dot_text(); }
//@loop 0 for
    invariant
        vx_it0.all == comps(root@), vx_it0.wf(), wfc(vx_it0.all),
        res@ =~= render(vx_it0.all.take(vx_it0.k)),
        parent_norm == (vx_it0.k > 0 && is_name(vx_it0.all[vx_it0.k - 1])),
    ensures vx_it0.k == vx_it0.all.len(), vx_it0.all.take(vx_it0.k) =~= vx_it0.all,
    decreases vx_it0.all.len() - vx_it0.k,
//@loopstart 0
    proof {
        dot_text();
        if vx_it0.k < vx_it0.all.len() {
            let p = vx_it0.all.take(vx_it0.k + 1);
            assert(p.drop_last() =~= vx_it0.all.take(vx_it0.k));
            assert(p.last() == vx_it0.all[vx_it0.k]);
            if vx_it0.k > 0 { assert(vx_it0.all.take(vx_it0.k).last() == vx_it0.all[vx_it0.k - 1]); }
        } else { assert(vx_it0.all.take(vx_it0.k) =~= vx_it0.all); }
    }
//@spec
ensures
    r@ =~= slashed(comps(root@)),
    undot(comps(r@)) =~= undot(comps(root@)),
    slashed(comps(r@)) =~= r@,
    r@.len() > 0,
    root@.len() > 0 && root@[0] == '/' <==> r@[0] == '/',
//@end

//@fn crates/tinymist-std/src/fs/paths.rs normalize_path C10
//@ret r
//@entry
    proof { comps_wf(path@); norm_facts(comps(path@)); }
//@loop 0 for
    invariant
        vx_it0.all == comps(path@), vx_it0.wf(), wfc(vx_it0.all),
        comps(ret@) =~= norm(vx_it0.all.take(vx_it0.k)),
    ensures vx_it0.k == vx_it0.all.len(), vx_it0.all.take(vx_it0.k) =~= vx_it0.all,
    decreases vx_it0.all.len() - vx_it0.k,
//@loopstart 0
    proof {
        dot_text();
        let t = vx_it0.all.take(vx_it0.k);
        if vx_it0.k < vx_it0.all.len() {
            let p = vx_it0.all.take(vx_it0.k + 1);
            assert(p.drop_last() =~= t);
            assert(p.last() == vx_it0.all[vx_it0.k]);
            assert(vx_it0.all[vx_it0.k] is RootDir ==> t =~= Seq::<Comp>::empty());
            assert(forall|n: Seq<char>| #[trigger] name_ok(n) ==> seg(n) =~= seq![Comp::Normal(n)]);
            assert(forall|c: Comp| norm(t) + seq![c] =~= #[trigger] norm(t).push(c));
        } else { assert(t =~= vx_it0.all); }
    }
//@spec
ensures
    comps(r@) =~= norm(comps(path@)),
    plain(comps(r@)),
    norm(comps(r@)) =~= comps(r@),
    abs(comps(r@)) <==> abs(comps(path@)),
//@end

//@fn crates/tinymist-std/src/path.rs clean_for_diff C11
//@ret r
//@entry
    proof {
        comps_wf(p@); cl_canon(comps(p@)); dot_text();
        if forall|i: int| 0 <= i < comps(p@).len() ==> #[trigger] comps(p@)[i] != Comp::ParentDir && comps(p@)[i] != Comp::CurDir { already_clean(comps(p@)); }
        let c = cl(comps(p@));
        assert(c.len() > 0 ==> !(c[0] is CurDir));
        assert(seq![Comp::CurDir][0] is CurDir);
    }
//@spec
// where the path leads to, the current directory without a component
ensures comps(r@) =~= cl(comps(p@)), canon(comps(r@)),
//@end
//@fn crates/tinymist-std/src/path.rs leading_parents C11
//@ret r
ensures r == lead(comps(p@), Comp::ParentDir),
//@end
//@fn crates/tinymist-std/src/path.rs diff C11
//@ret r
//@entry
    proof { comps_wf(fr@); comps_wf(to@); leads_back_from(comps(fr@), comps(to@)); cl_canon(comps(fr@)); cl_canon(comps(to@)); }
//@spec
ensures
    // the answer only depends on where the two paths lead
    r is Some <==> answer(cl(comps(fr@)), cl(comps(to@))) is Some,
    r is Some ==> comps((r->0)@) =~= answer(cl(comps(fr@)), cl(comps(to@)))->0,
    // from the base it leads back to the target
    r is Some ==> cl(joined(comps(to@), comps((r->0)@))) =~= cl(comps(fr@)),
    abs(comps(fr@)) && abs(comps(to@)) ==> r is Some,
//@end
}
fn main() {}
