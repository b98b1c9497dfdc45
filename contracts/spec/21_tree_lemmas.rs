pub mod tree_lemmas {
    use super::*;
    use super::ax_ieee::*;

    pub proof fn den_closed(t: Tree, e: Env, f: Env) requires closed(t) ensures den(t, e) == den(t, f) decreases t {
        match t {
            Tree::Un(op, a) => { den_closed(*a, e, f); }
            Tree::Bin(op, a, b) => { den_closed(*a, e, f); den_closed(*b, e, f); }
            Tree::Call(g, args) => {
                assert forall|i: int| 0 <= i < args.len() implies den(#[trigger] args[i], e) == den(args[i], f) by { den_closed(args[i], e, f); }
                assert(dens(args, e) =~= dens(args, f));
            }
            _ => {}
        }
    }
    /// the value depends on the variables that occur only
    pub proof fn den_agree(t: Tree, e: Env, f: Env)
        requires forall|x: Seq<char>| #[trigger] occurs(t, x) ==> e[x] == f[x]
        ensures den(t, e) == den(t, f) decreases t
    {
        match t {
            Tree::Var(x) => { assert(occurs(t, x)); }
            Tree::Un(op, a) => {
                assert forall|x: Seq<char>| #[trigger] occurs(*a, x) implies e[x] == f[x] by { assert(occurs(t, x)); }
                den_agree(*a, e, f);
            }
            Tree::Bin(op, a, b) => {
                assert forall|x: Seq<char>| #[trigger] occurs(*a, x) implies e[x] == f[x] by { assert(occurs(t, x)); }
                assert forall|x: Seq<char>| #[trigger] occurs(*b, x) implies e[x] == f[x] by { assert(occurs(t, x)); }
                den_agree(*a, e, f); den_agree(*b, e, f);
            }
            Tree::Call(g, args) => {
                assert forall|i: int| 0 <= i < args.len() implies den(#[trigger] args[i], e) == den(args[i], f) by {
                    assert forall|x: Seq<char>| #[trigger] occurs(args[i], x) implies e[x] == f[x] by { assert(occurs(t, x)); }
                    den_agree(args[i], e, f);
                }
                assert(dens(args, e) =~= dens(args, f));
            }
            _ => {}
        }
    }
    pub proof fn closed_vars(t: Tree) ensures closed(t) <==> (forall|x: Seq<char>| !#[trigger] occurs(t, x)) decreases t {
        match t {
            Tree::Var(x) => { assert(occurs(t, x)); }
            Tree::Un(op, a) => {
                closed_vars(*a);
                if !closed(*a) { let x = choose|x: Seq<char>| occurs(*a, x); assert(occurs(t, x)); }
                else { assert forall|x: Seq<char>| !#[trigger] occurs(t, x) by { assert(!occurs(*a, x)); } }
            }
            Tree::Bin(op, a, b) => {
                closed_vars(*a); closed_vars(*b);
                if closed(t) { assert forall|x: Seq<char>| !#[trigger] occurs(t, x) by { assert(!occurs(*a, x)); assert(!occurs(*b, x)); } }
                if !closed(*a) { let x = choose|x: Seq<char>| occurs(*a, x); assert(occurs(t, x)); }
                if !closed(*b) { let x = choose|x: Seq<char>| occurs(*b, x); assert(occurs(t, x)); }
            }
            Tree::Call(g, args) => {
                assert forall|i: int| 0 <= i < args.len() implies (closed(#[trigger] args[i]) <==> (forall|x: Seq<char>| !#[trigger] occurs(args[i], x))) by { closed_vars(args[i]); }
                if closed(t) {
                    assert forall|x: Seq<char>| !#[trigger] occurs(t, x) by {
                        if occurs(t, x) { let i = choose|i: int| 0 <= i < args.len() && occurs(#[trigger] args[i], x); assert(closed(args[i])); }
                    }
                } else {
                    let i = choose|i: int| 0 <= i < args.len() && !closed(#[trigger] args[i]);
                    let x = choose|x: Seq<char>| occurs(args[i], x);
                    assert(occurs(t, x));
                }
            }
            _ => {}
        }
    }
    // ---- refines: reflexive, transitive, a congruence
    pub broadcast proof fn refl(t: Tree) ensures #[trigger] refines(t, t) { reveal(refines); }
    pub proof fn trans(s: Tree, t: Tree, u: Tree) requires refines(s, t), refines(t, u) ensures refines(s, u) {
        reveal(refines);
        assert forall|env: Env| good(s, env, false) implies #[trigger] good(u, env, false) && zeq(den(s, env), den(u, env)) by {
            assert(good(t, env, false));
        }
        assert forall|x: Seq<char>| #[trigger] occurs(u, x) implies occurs(s, x) by { assert(occurs(t, x)); }
    }
    pub proof fn cong_un(op: Operator, a: Tree, b: Tree) requires refines(a, b) ensures refines(un(op, a), un(op, b)) {
        broadcast use zcong;
        reveal(refines);
        let s = un(op, a); let t = un(op, b);
        assert forall|x: Seq<char>| #[trigger] occurs(t, x) implies occurs(s, x) by { assert(occurs(b, x)); }
        if closed(s) { assert forall|env: Env| #[trigger] den(t, env) == den(s, env) by { assert(den(b, env) == den(a, env)); } }
        assert forall|env: Env| #![trigger good(t, env, false)] #![trigger good(s, env, false)] good(s, env, false) implies good(t, env, false) && zeq(den(s, env), den(t, env)) by {
            if closed(s) { assert(den(b, env) == den(a, env)); assert(den(t, env) == den(s, env)); } else {
                assert(good(a, env, false)); assert(good(b, env, false)); assert(zeq(den(a, env), den(b, env)));
                assert(zeq(vun(op, den(a, env)), vun(op, den(b, env))));
            }
        }
        assert(wf(s) ==> wf(t)); assert(r_occ(s, t)); assert(closed(s) ==> closed(t)); assert(r_den(s, t)); assert(r_good(s, t));
    }
    pub proof fn vbin_z(op: Operator, a: V, b: V, c: V, d: V) requires zeq(a, c), zeq(b, d), ok_bin(op, a, b)
        ensures zeq(vbin(op, a, b), vbin(op, c, d)), ok_bin(op, c, d)
    { broadcast use zcong; assert(ltz(b) ==> b == d); assert(zeq(vbin(op, a, b), vbin(op, c, d))); }
    pub proof fn cong_bin(op: Operator, a: Tree, b: Tree, c: Tree, d: Tree) requires refines(a, c), refines(b, d)
        ensures refines(bin(op, a, b), bin(op, c, d))
    {
        reveal(refines);
        let s = bin(op, a, b); let t = bin(op, c, d);
        assert forall|x: Seq<char>| #[trigger] occurs(t, x) implies occurs(s, x) by { assert(occurs(c, x) || occurs(d, x)); }
        if closed(s) { assert forall|env: Env| #[trigger] den(t, env) == den(s, env) by { assert(den(c, env) == den(a, env)); assert(den(d, env) == den(b, env)); } }
        assert forall|env: Env| #![trigger good(t, env, false)] #![trigger good(s, env, false)] good(s, env, false) implies good(t, env, false) && zeq(den(s, env), den(t, env)) by {
            if closed(s) { assert(den(c, env) == den(a, env)); assert(den(d, env) == den(b, env)); } else {
                assert(good(a, env, false) && good(b, env, false));
                assert(good(c, env, false) && good(d, env, false));
                vbin_z(op, den(a, env), den(b, env), den(c, env), den(d, env));
            }
        }
        assert(wf(s) ==> wf(t)); assert(r_occ(s, t)); assert(closed(s) ==> closed(t)); assert(r_den(s, t)); assert(r_good(s, t));
    }
    pub proof fn cong_call(f: FunV, a: Seq<Tree>, b: Seq<Tree>) requires refines_all(a, b) ensures refines(Tree::Call(f, a), Tree::Call(f, b)) {
        reveal(refines);
        let s = Tree::Call(f, a); let t = Tree::Call(f, b);
        assert(forall|i: int| 0 <= i < a.len() ==> refines(#[trigger] a[i], #[trigger] b[i]));
        if wf(s) { assert forall|i: int| 0 <= i < b.len() implies wf(#[trigger] b[i]) by { assert(wf(a[i])); } }
        assert forall|x: Seq<char>| #[trigger] occurs(t, x) implies occurs(s, x) by {
            let i = choose|i: int| 0 <= i < b.len() && occurs(#[trigger] b[i], x);
            assert(refines(a[i], b[i])); assert(occurs(a[i], x));
        }
        if closed(s) {
            assert forall|i: int| 0 <= i < b.len() implies closed(#[trigger] b[i]) by { assert(refines(a[i], b[i])); assert(closed(a[i])); }
            assert forall|env: Env| #[trigger] den(t, env) == den(s, env) by {
                assert forall|i: int| 0 <= i < a.len() implies den(#[trigger] a[i], env) == den(b[i], env) by { assert(refines(a[i], b[i])); assert(closed(a[i])); }
                assert(dens(a, env) =~= dens(b, env));
            }
        }
        assert forall|env: Env| #![trigger good(t, env, false)] #![trigger good(s, env, false)] good(s, env, false) implies good(t, env, false) && zeq(den(s, env), den(t, env)) by {
            if closed(s) { assert(den(t, env) == den(s, env)); } else {
                assert forall|i: int| 0 <= i < b.len() implies good(#[trigger] b[i], env, false) && zeq(den(a[i], env), den(b[i], env)) by {
                    assert(refines(a[i], b[i])); assert(good(a[i], env, false));
                }
                assert(zeqs(dens(a, env), dens(b, env)));
                assert(insensitive(f.fid));
                ax_ieee::zz();
                assert(!is_nan(den(t, env)));
            }
        }
        assert(wf(s) ==> wf(t)); assert(r_occ(s, t)); assert(closed(s) ==> closed(t)); assert(r_den(s, t)); assert(r_good(s, t));
    }
    pub proof fn eq_refl_sym(a: Tree, b: Tree) ensures eqs(a, b) == eqs(b, a) decreases a {
        match (a, b) {
            (Tree::Un(o, x), Tree::Un(p, y)) => { eq_refl_sym(*x, *y); }
            (Tree::Bin(o, x, y), Tree::Bin(p, z, w)) => { eq_refl_sym(*x, *z); eq_refl_sym(*y, *w); eq_refl_sym(*x, *w); eq_refl_sym(*y, *z); }
            (Tree::Call(f, x), Tree::Call(g, y)) => {
                if f == g && x.len() == y.len() {
                    assert forall|i: int| 0 <= i < x.len() implies eqs(#[trigger] x[i], y[i]) == eqs(y[i], x[i]) by { eq_refl_sym(x[i], y[i]); }
                    if eqs(a, b) { assert forall|i: int| 0 <= i < y.len() implies eqs(#[trigger] y[i], x[i]) by { assert(eqs(x[i], y[i])); } }
                    if eqs(b, a) { assert forall|i: int| 0 <= i < x.len() implies eqs(#[trigger] x[i], y[i]) by { assert(eqs(y[i], x[i])); } }
                }
            }
            (Tree::Num(x), Tree::Num(y)) => { broadcast use zero_facts; }
            _ => {}
        }
    }
    /// equal expressions have equal values (C17)
    pub proof fn eq_val(a: Tree, b: Tree, env: Env, strict: bool)
        requires eqs(a, b), good(a, env, strict), strict || folded(a)
        ensures zeq(den(a, env), den(b, env)) decreases a
    {
        broadcast use zcong;
        match (a, b) {
            (Tree::Un(o, x), Tree::Un(p, y)) => { eq_val(*x, *y, env, strict); assert(zeq(vun(o, den(*x, env)), vun(o, den(*y, env)))); }
            (Tree::Bin(o, x, y), Tree::Bin(p, z, w)) => {
                if eqs(*x, *z) && eqs(*y, *w) {
                    eq_val(*x, *z, env, strict); eq_val(*y, *w, env, strict);
                    vbin_z(o, den(*x, env), den(*y, env), den(*z, env), den(*w, env));
                } else {
                    eq_val(*x, *w, env, strict); eq_val(*y, *z, env, strict);
                    vbin_z(o, den(*x, env), den(*y, env), den(*w, env), den(*z, env));
                    add_c(den(*w, env), den(*z, env)); mul_c(den(*w, env), den(*z, env));
                }
            }
            (Tree::Call(f, x), Tree::Call(g, y)) => {
                assert forall|i: int| 0 <= i < x.len() implies zeq(#[trigger] dens(x, env)[i], dens(y, env)[i]) by {
                    assert(eqs(x[i], y[i])); assert(good(x[i], env, strict)); assert(strict || folded(x[i]));
                    eq_val(x[i], y[i], env, strict);
                }
                assert(zeqs(dens(x, env), dens(y, env)));
                assert(insensitive(f.fid));
            }
            _ => {}
        }
    }
    // ---- substitution
    pub proof fn subst_props(t: Tree, x: Seq<char>, v: V)
        ensures wf(t) ==> wf(subst(t, x, v)), closed(t) ==> subst(t, x, v) == t,
            forall|y: Seq<char>| #[trigger] occurs(subst(t, x, v), y) <==> occurs(t, y) && y != x
        decreases t
    {
        let u = subst(t, x, v);
        match t {
            Tree::Un(op, a) => {
                subst_props(*a, x, v);
                assert forall|y: Seq<char>| #[trigger] occurs(u, y) <==> occurs(t, y) && y != x by { assert(occurs(subst(*a, x, v), y) <==> occurs(*a, y) && y != x); }
            }
            Tree::Bin(op, a, b) => {
                subst_props(*a, x, v); subst_props(*b, x, v);
                assert forall|y: Seq<char>| #[trigger] occurs(u, y) <==> occurs(t, y) && y != x by {
                    assert(occurs(subst(*a, x, v), y) <==> occurs(*a, y) && y != x); assert(occurs(subst(*b, x, v), y) <==> occurs(*b, y) && y != x); }
            }
            Tree::Call(f, args) => {
                let w = substs(args, x, v);
                assert forall|i: int| 0 <= i < args.len() implies (wf(#[trigger] args[i]) ==> wf(w[i])) && (closed(args[i]) ==> w[i] == args[i])
                    && (forall|y: Seq<char>| #[trigger] occurs(w[i], y) <==> occurs(args[i], y) && y != x) by { subst_props(args[i], x, v); }
                if wf(t) { assert forall|i: int| 0 <= i < w.len() implies wf(#[trigger] w[i]) by { assert(wf(args[i])); } }
                if closed(t) { assert(w =~= args); }
                assert(u == Tree::Call(f, w));
                assert(u == Tree::Call(f, w));
                assert forall|y: Seq<char>| occurs(u, y) implies #[trigger] occurs(t, y) && y != x by {
                    let i = choose|i: int| 0 <= i < w.len() && occurs(#[trigger] w[i], y);
                    assert(occurs(args[i], y)); assert(occurs(w[i], y)); }
                assert forall|y: Seq<char>| occurs(t, y) && y != x implies #[trigger] occurs(u, y) by {
                    let i = choose|i: int| 0 <= i < args.len() && occurs(#[trigger] args[i], y);
                    assert(occurs(args[i], y)); assert(occurs(w[i], y)); }
            }
            _ => {}
        }
    }
    pub proof fn subst_den(t: Tree, x: Seq<char>, v: V, env: Env)
        ensures den(subst(t, x, v), env) == den(t, env.insert(x, v)) decreases t
    {
        match t {
            Tree::Un(op, a) => { subst_den(*a, x, v, env); }
            Tree::Bin(op, a, b) => { subst_den(*a, x, v, env); subst_den(*b, x, v, env); }
            Tree::Call(f, args) => {
                assert forall|i: int| 0 <= i < args.len() implies den(#[trigger] substs(args, x, v)[i], env) == den(args[i], env.insert(x, v)) by { subst_den(args[i], x, v, env); }
                assert(dens(substs(args, x, v), env) =~= dens(args, env.insert(x, v)));
            }
            _ => {}
        }
    }
    pub proof fn subst_good(t: Tree, x: Seq<char>, v: V, env: Env)
        requires good(t, env.insert(x, v), false)
        ensures good(subst(t, x, v), env, false) decreases t
    {
        let u = subst(t, x, v);
        subst_props(t, x, v);
        subst_den(t, x, v, env);
        if !closed(t) && !closed(u) {
            match t {
                Tree::Un(op, a) => { subst_good(*a, x, v, env); subst_den(*a, x, v, env); }
                Tree::Bin(op, a, b) => { subst_good(*a, x, v, env); subst_good(*b, x, v, env); subst_den(*a, x, v, env); subst_den(*b, x, v, env); }
                Tree::Call(f, args) => {
                    let w = substs(args, x, v);
                    assert forall|i: int| 0 <= i < w.len() implies good(#[trigger] w[i], env, false) && den(w[i], env) == den(args[i], env.insert(x, v)) by {
                        assert(good(args[i], env.insert(x, v), false)); subst_good(args[i], x, v, env); subst_den(args[i], x, v, env); }
                    assert(dens(w, env) =~= dens(args, env.insert(x, v)));
                }
                _ => {}
            }
        }
    }
}
