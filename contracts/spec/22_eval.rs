// ===== evaluation =====
pub open spec fn env_of(m: Map<Seq<char>, f64>) -> Env { m.map_values(|x: f64| fv(x)) }
/// every variable of t has a value
pub open spec fn has_all(t: Tree, m: Map<Seq<char>, f64>) -> bool { forall|x: Seq<char>| #[trigger] occurs(t, x) ==> m.dom().contains(x) }
pub mod tree_facts {
    use super::*;
    pub broadcast proof fn occ_num(v: V, x: Seq<char>) ensures !#[trigger] occurs(Tree::Num(v), x) {}
    pub broadcast proof fn occ_var(y: Seq<char>, x: Seq<char>) ensures #[trigger] occurs(Tree::Var(y), x) == (x == y) {}
    pub broadcast proof fn occ_un(op: Operator, a: Box<Tree>, x: Seq<char>) ensures #[trigger] occurs(Tree::Un(op, a), x) == occurs(*a, x) {}
    pub broadcast proof fn occ_bin(op: Operator, a: Box<Tree>, b: Box<Tree>, x: Seq<char>) ensures #[trigger] occurs(Tree::Bin(op, a, b), x) == (occurs(*a, x) || occurs(*b, x)) {}
    proof fn occ_call_1(t: Tree, x: Seq<char>, i: int) requires t is Call, 0 <= i < t->Call_1.len(), occurs(t->Call_1[i], x) ensures occurs(t, x) {}
    pub broadcast proof fn occ_call(f: FunV, args: Seq<Tree>, x: Seq<char>) ensures #[trigger] occurs(Tree::Call(f, args), x) == occ_first(args, args.len() as int, x) {
        let t = Tree::Call(f, args);
        if occurs(t, x) { let i = choose|i: int| 0 <= i < args.len() && occurs(#[trigger] args[i], x); assert(occurs(args[i], x)); assert(occ_first(args, args.len() as int, x)); }
        if occ_first(args, args.len() as int, x) { let i = choose|i: int| 0 <= i < args.len() && occurs(#[trigger] args[i], x); occ_call_1(t, x, i); }
    }
    /// x occurs in one of the first n arguments
    pub open spec fn occ_first(args: Seq<Tree>, n: int, x: Seq<char>) -> bool { exists|i: int| 0 <= i < n && occurs(#[trigger] args[i], x) }
    pub broadcast proof fn occ_first_0(args: Seq<Tree>, x: Seq<char>) ensures !#[trigger] occ_first(args, 0, x) {}
    pub proof fn occ_step(args: Seq<Tree>, n: int) requires 0 <= n < args.len()
        ensures forall|x: Seq<char>| #[trigger] occ_first(args, n + 1, x) == (occ_first(args, n, x) || occurs(args[n], x)) {
        assert forall|x: Seq<char>| #[trigger] occ_first(args, n + 1, x) == (occ_first(args, n, x) || occurs(args[n], x)) by {
            if occ_first(args, n + 1, x) { let i = choose|i: int| 0 <= i < n + 1 && occurs(#[trigger] args[i], x); if i < n { assert(occ_first(args, n, x)); } }
            if occ_first(args, n, x) { let i = choose|i: int| 0 <= i < n && occurs(#[trigger] args[i], x); assert(occurs(args[i], x)); }
        }
    }
    pub broadcast proof fn has_num(v: V, m: Map<Seq<char>, f64>) ensures #[trigger] has_all(Tree::Num(v), m) {}
    pub broadcast proof fn has_var(y: Seq<char>, m: Map<Seq<char>, f64>) ensures #[trigger] has_all(Tree::Var(y), m) == m.dom().contains(y) { assert(occurs(Tree::Var(y), y)); }
    pub broadcast proof fn has_un(op: Operator, a: Box<Tree>, m: Map<Seq<char>, f64>) ensures #[trigger] has_all(Tree::Un(op, a), m) == has_all(*a, m) {
        broadcast use occ_un; let t = Tree::Un(op, a);
        if has_all(t, m) { assert forall|x: Seq<char>| #[trigger] occurs(*a, x) implies m.dom().contains(x) by { assert(occurs(t, x)); } }
    }
    pub broadcast proof fn has_bin(op: Operator, a: Box<Tree>, b: Box<Tree>, m: Map<Seq<char>, f64>) ensures #[trigger] has_all(Tree::Bin(op, a, b), m) == (has_all(*a, m) && has_all(*b, m)) {
        broadcast use occ_bin; let t = Tree::Bin(op, a, b);
        if has_all(t, m) {
            assert forall|x: Seq<char>| #[trigger] occurs(*a, x) implies m.dom().contains(x) by { assert(occurs(t, x)); }
            assert forall|x: Seq<char>| #[trigger] occurs(*b, x) implies m.dom().contains(x) by { assert(occurs(t, x)); }
        }
    }
    pub broadcast proof fn has_call(f: FunV, args: Seq<Tree>, m: Map<Seq<char>, f64>)
        ensures #[trigger] has_all(Tree::Call(f, args), m) == (forall|k: int| 0 <= k < args.len() ==> has_all(#[trigger] args[k], m)) {
        broadcast use occ_call; let t = Tree::Call(f, args);
        if has_all(t, m) { assert forall|k: int| 0 <= k < args.len() implies has_all(#[trigger] args[k], m) by {
            assert forall|x: Seq<char>| #[trigger] occurs(args[k], x) implies m.dom().contains(x) by { assert(occurs(t, x)); } } }
        if forall|k: int| 0 <= k < args.len() ==> has_all(#[trigger] args[k], m) { assert forall|x: Seq<char>| #[trigger] occurs(t, x) implies m.dom().contains(x) by {
            let i = choose|i: int| 0 <= i < args.len() && occurs(#[trigger] args[i], x); assert(has_all(args[i], m)); } }
    }
    proof fn wf_call_1(t: Tree, i: int) requires t is Call, wf(t), 0 <= i < t->Call_1.len() ensures wf(t->Call_1[i]) {}
    proof fn wf_call_2(t: Tree) requires t is Call, fun_ok(t->Call_0), arity_ok(t->Call_0, t->Call_1.len() as int), forall|i: int| 0 <= i < t->Call_1.len() ==> wf(#[trigger] t->Call_1[i]) ensures wf(t) {}
    pub broadcast proof fn wf_call(f: FunV, args: Seq<Tree>)
        ensures #[trigger] wf(Tree::Call(f, args)) == (fun_ok(f) && arity_ok(f, args.len() as int) && forall|k: int| 0 <= k < args.len() ==> wf(#[trigger] args[k])) {
        let t = Tree::Call(f, args);
        if wf(t) { assert forall|k: int| 0 <= k < args.len() implies wf(#[trigger] args[k]) by { wf_call_1(t, k); } }
        if fun_ok(f) && arity_ok(f, args.len() as int) && forall|k: int| 0 <= k < args.len() ==> wf(#[trigger] args[k]) { wf_call_2(t); }
    }
    pub broadcast proof fn den_call(f: FunV, args: Seq<Tree>, env: Env) ensures #[trigger] den(Tree::Call(f, args), env) == fcall(f.fid, dens(args, env)) {}
    pub broadcast group meaning { wf_call, den_call }
    pub broadcast proof fn trees_len(s: Seq<Element>) ensures #[trigger] trees(s).len() == s.len() {}
    pub broadcast proof fn trees_ix(s: Seq<Element>, i: int) requires 0 <= i < s.len() ensures #[trigger] trees(s)[i] == s[i].tree() {}
    pub broadcast proof fn dens_len(s: Seq<Tree>, env: Env) ensures #[trigger] dens(s, env).len() == s.len() {}
    pub broadcast proof fn dens_ix(s: Seq<Tree>, env: Env, i: int) requires 0 <= i < s.len() ensures #[trigger] dens(s, env)[i] == den(s[i], env) {}
    pub broadcast group seqs { trees_len, trees_ix, dens_len, dens_ix }
    pub broadcast group occ { occ_num, occ_var, occ_un, occ_bin, occ_call, occ_first_0 }
    pub broadcast group has { has_num, has_var, has_un, has_bin, has_call }
}
pub mod eq_facts {
    use super::*;
    proof fn eqs_call_1(a: Tree, b: Tree) requires a is Call, b is Call ensures
        eqs(a, b) == (a->Call_0 == b->Call_0 && a->Call_1.len() == b->Call_1.len() && (forall|i: int| 0 <= i < a->Call_1.len() ==> eqs(#[trigger] a->Call_1[i], b->Call_1[i]))) {}
    pub broadcast proof fn eqs_call(f: FunV, x: Seq<Tree>, g: FunV, y: Seq<Tree>)
        ensures #[trigger] eqs(Tree::Call(f, x), Tree::Call(g, y)) == (f == g && eqss(x, y)) {
        eqs_call_1(Tree::Call(f, x), Tree::Call(g, y));
        if f == g && eqss(x, y) { assert forall|i: int| 0 <= i < x.len() implies eqs(#[trigger] x[i], y[i]) by {} }
    }
}
