// ===== simplification for given values =====
pub open spec fn env_with(env: Env, vs: Seq<(Seq<char>, V)>) -> Env decreases vs.len() {
    if vs.len() == 0 { env } else { env_with(env.insert(vs.last().0, vs.last().1), vs.drop_last()) }
}
pub open spec fn named(vs: Seq<(Seq<char>, V)>, x: Seq<char>) -> bool { exists|i: int| 0 <= i < vs.len() && #[trigger] vs[i].0 == x }
/// r is t with the variables vs fixed (the first value given for a name counts)
#[verifier::opaque]
pub open spec fn fixes(t: Tree, vs: Seq<(Seq<char>, V)>, r: Tree) -> bool {
    &&& wf(t) ==> wf(r)
    &&& forall|x: Seq<char>| #[trigger] occurs(r, x) ==> occurs(t, x) && !named(vs, x)
    &&& forall|env: Env| #[trigger] good(t, env_with(env, vs), false) ==> good(r, env, false) && zeq(den(t, env_with(env, vs)), den(r, env))
}
pub open spec fn var_vals(vars: Seq<(&str, f64)>) -> Seq<(Seq<char>, V)> { vars.map_values(|p: (&str, f64)| (p.0@, fv(p.1))) }
pub mod fix_lemmas {
    use super::*;
    use super::tree_lemmas::*;
    pub proof fn fix_none(t: Tree) ensures fixes(t, Seq::empty(), t) {
        reveal(fixes);
        let vs = Seq::<(Seq<char>, V)>::empty();
        assert forall|env: Env| #[trigger] good(t, env_with(env, vs), false) implies good(t, env, false) && zeq(den(t, env_with(env, vs)), den(t, env)) by { assert(env_with(env, vs) == env); }
    }
    pub proof fn fix_more(t: Tree, vs: Seq<(Seq<char>, V)>, u: Tree, x: Seq<char>, v: V, r: Tree)
        requires fixes(t, vs, u), simp(subst(u, x, v), r)
        ensures fixes(t, vs.push((x, v)), r)
    {
        reveal(fixes);
        let ws = vs.push((x, v));
        assert(ws.drop_last() =~= vs);
        assert(wf(u) ==> wf(r)) by { reveal(refines); subst_props(u, x, v); }
        assert forall|y: Seq<char>| #[trigger] occurs(r, y) implies occurs(t, y) && !named(ws, y) by {
            reveal(refines); subst_props(u, x, v);
            assert(occurs(subst(u, x, v), y)); assert(occurs(u, y) && y != x);
            if named(ws, y) { let i = choose|i: int| 0 <= i < ws.len() && #[trigger] ws[i].0 == y; if i < vs.len() { assert(vs[i].0 == y); } }
        }
        assert forall|env: Env| #[trigger] good(t, env_with(env, ws), false) implies good(r, env, false) && zeq(den(t, env_with(env, ws)), den(r, env)) by {
            let e = env.insert(x, v);
            assert(env_with(env, ws) == env_with(e, vs));
            assert(good(t, env_with(e, vs), false));
            subst_good(u, x, v, env); subst_den(u, x, v, env);
            reveal(refines);
            assert(good(subst(u, x, v), env, false));
            broadcast use ax_ieee::zcong;
        }
    }
    pub proof fn simp_for_un(op: Operator, a: Tree, x: Seq<char>, v: V, l: Tree, t: Tree)
        requires wf(un(op, a)), simp(subst(a, x, v), l), simp(un(op, l), t)
        ensures simp(subst(un(op, a), x, v), t)
    { cong_un(op, subst(a, x, v), l); assert(subst(un(op, a), x, v) == un(op, subst(a, x, v))); trans(subst(un(op, a), x, v), un(op, l), t); }
    pub proof fn simp_for_bin(op: Operator, a: Tree, b: Tree, x: Seq<char>, v: V, l: Tree, r: Tree, t: Tree)
        requires wf(bin(op, a, b)), simp(subst(a, x, v), l), simp(subst(b, x, v), r), simp(bin(op, l, r), t)
        ensures simp(subst(bin(op, a, b), x, v), t)
    { cong_bin(op, subst(a, x, v), subst(b, x, v), l, r); assert(subst(bin(op, a, b), x, v) == bin(op, subst(a, x, v), subst(b, x, v))); trans(subst(bin(op, a, b), x, v), bin(op, l, r), t); }
    pub proof fn simp_for_call(f: FunV, a: Seq<Tree>, x: Seq<char>, v: V, b: Seq<Tree>, t: Tree)
        requires rules::simp_all(substs(a, x, v), b), simp(Tree::Call(f, b), t)
        ensures simp(subst(Tree::Call(f, a), x, v), t)
    {
        assert(refines_all(substs(a, x, v), b));
        cong_call(f, substs(a, x, v), b);
        assert(subst(Tree::Call(f, a), x, v) == Tree::Call(f, substs(a, x, v)));
        trans(subst(Tree::Call(f, a), x, v), Tree::Call(f, b), t);
    }
    pub proof fn wf_subst(t: Tree, x: Seq<char>, v: V) requires wf(t) ensures wf(subst(t, x, v)) { subst_props(t, x, v); }
    pub proof fn wf_simp(s: Tree, t: Tree) requires wf(s), simp(s, t) ensures wf(t) { reveal(refines); }
}
/// the same, found by the verifier wherever a rewrite is made
pub mod simp_facts {
    use super::*;
    pub broadcast proof fn b_un(op: Operator, a: Tree, l: Tree, t: Tree)
        requires wf(un(op, a)), #[trigger] simp(a, l), un_rule(op, l, t)
        ensures #[trigger] simp(un(op, a), t)
    { rules::un_simp(op, a, l, t); }
    pub broadcast proof fn b_bin(op: Operator, a: Tree, b: Tree, l: Tree, r: Tree, t: Tree)
        requires wf(bin(op, a, b)), #[trigger] simp(a, l), #[trigger] simp(b, r), bin_rule(op, l, r, t)
        ensures #[trigger] simp(bin(op, a, b), t)
    { rules::bin_simp(op, a, b, l, r, t); }
    pub broadcast proof fn b_for_un(op: Operator, a: Tree, x: Seq<char>, v: V, l: Tree, t: Tree)
        requires wf(un(op, a)), #[trigger] simp(subst(a, x, v), l), #[trigger] simp(un(op, l), t)
        ensures simp(subst(un(op, a), x, v), t)
    { fix_lemmas::simp_for_un(op, a, x, v, l, t); }
    pub broadcast proof fn b_for_bin(op: Operator, a: Tree, b: Tree, x: Seq<char>, v: V, l: Tree, r: Tree, t: Tree)
        requires wf(bin(op, a, b)), #[trigger] simp(subst(a, x, v), l), #[trigger] simp(subst(b, x, v), r), #[trigger] simp(bin(op, l, r), t)
        ensures simp(subst(bin(op, a, b), x, v), t)
    { fix_lemmas::simp_for_bin(op, a, b, x, v, l, r, t); }
    pub broadcast proof fn b_wf(s: Tree, t: Tree) requires #[trigger] wf(s), #[trigger] simp(s, t) ensures wf(t) { fix_lemmas::wf_simp(s, t); }
    pub broadcast proof fn b_one(vars: Seq<(&str, f64)>)
        ensures vars.len() == 1 ==> #[trigger] var_vals(vars) == seq![(vars[0].0@, fv(vars[0].1))]
    { if vars.len() == 1 { assert(var_vals(vars) =~= seq![(vars[0].0@, fv(vars[0].1))]); } }
    pub broadcast group un1 { b_un, b_wf }
    pub broadcast group bin1 { b_bin, b_wf }
    pub broadcast group subst1 { b_for_un, b_for_bin, b_wf }
    pub proof fn fix_step(t: Tree, vs: Seq<(Seq<char>, V)>, u: Tree, x: Seq<char>, v: V, r: Tree)
        ensures fixes(t, vs, u) && simp(subst(u, x, v), r) ==> fixes(t, vs.push((x, v)), r)
    { if fixes(t, vs, u) && simp(subst(u, x, v), r) { fix_lemmas::fix_more(t, vs, u, x, v, r); } }
}
