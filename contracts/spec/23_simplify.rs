// ===== simplification: the rewrites that are allowed, and why each is sound =====
pub open spec fn is_neg(t: Tree) -> bool { t is Un && t->Un_0 == Operator::Minus }
pub open spec fn neg_arg(t: Tree) -> Tree { *t->Un_1 }
/// t may replace `l op r` (l and r already folded)
pub open spec fn bin_rule(op: Operator, l: Tree, r: Tree, t: Tree) -> bool {
    let z = Tree::Num(V0());
    let one = Tree::Num(V1());
    ||| l is Num && r is Num && t == Tree::Num(vbin(op, l->Num_0, r->Num_0))
    ||| !(l is Num && r is Num) && (t == bin(op, l, r) || match op {
        Operator::Plus => (eqs(l, z) && t == r) || (eqs(r, z) && t == l)
            || (t == z && is_neg(l) && eqs(neg_arg(l), r))
            || (t == z && is_neg(r) && eqs(l, neg_arg(r))),
        Operator::Minus => (eqs(l, z) && t == un(Operator::Minus, r)) || (eqs(r, z) && t == l) || (eqs(l, r) && t == z)
            || (is_neg(r) && t == bin(Operator::Plus, l, neg_arg(r))),
        Operator::Times => ((eqs(l, z) || eqs(r, z)) && t == z) || (eqs(l, one) && t == r) || (eqs(r, one) && t == l)
            || (is_neg(l) && is_neg(r) && t == bin(Operator::Times, neg_arg(l), neg_arg(r))),
        Operator::Divide => (eqs(l, z) && eqs(r, z) && t == Tree::Num(VNAN())) || (eqs(l, z) && t == z) || (eqs(r, one) && t == l) || (eqs(l, r) && t == one)
            || (is_neg(l) && is_neg(r) && t == bin(Operator::Divide, neg_arg(l), neg_arg(r))),
        Operator::Power => (eqs(r, z) && t == one) || (eqs(r, one) && t == l),
        Operator::Modulo => (eqs(l, z) && t == z) || (eqs(r, z) && t == Tree::Num(VNAN())) || (eqs(l, r) && t == z),
        Operator::Factorial => false,
    })
}
pub open spec fn un_rule(op: Operator, a: Tree, t: Tree) -> bool {
    ||| a is Num && t == Tree::Num(vun(op, a->Num_0))
    ||| op == Operator::Plus && t == a
    ||| !(a is Num) && t == un(op, a)
}
/// what simplification guarantees
pub open spec fn simp(s: Tree, t: Tree) -> bool { refines(s, t) && folded(t) }
pub mod rules {
    use super::*;
    use super::ax_ieee::*;
    use super::tree_lemmas::*;
    /// a replacement by a number, where the value is right whenever nothing goes wrong
    proof fn to_num(s: Tree, v: V)
        requires wf(s), !closed(s), !is_nan(v), forall|env: Env| good(s, env, false) ==> zeq(#[trigger] den(s, env), v)
        ensures refines(s, Tree::Num(v))
    {
        reveal(refines);
        let t = Tree::Num(v);
        assert(r_occ(s, t));
        assert forall|env: Env| #![trigger good(t, env, false)] #![trigger good(s, env, false)] good(s, env, false) implies good(t, env, false) && zeq(den(s, env), den(t, env)) by { assert(zeq(den(s, env), v)); }
        assert(r_good(s, t));
    }
    /// a replacement by another tree whose value agrees
    proof fn to_tree(s: Tree, t: Tree)
        requires wf(s), wf(t), !closed(s), forall|x: Seq<char>| #[trigger] occurs(t, x) ==> occurs(s, x),
            forall|env: Env| #[trigger] good(s, env, false) ==> good(t, env, false) && zeq(den(s, env), den(t, env))
        ensures refines(s, t)
    {
        reveal(refines);
        assert forall|x: Seq<char>| #![trigger occurs(t, x)] #![trigger occurs(s, x)] occurs(t, x) implies occurs(s, x) by { assert(occurs(t, x)); }
        assert(r_occ(s, t));
        assert forall|env: Env| #![trigger good(t, env, false)] #![trigger good(s, env, false)] good(s, env, false) implies good(t, env, false) && zeq(den(s, env), den(t, env)) by { assert(good(s, env, false)); }
        assert(r_good(s, t));
    }
    pub proof fn bin_sound(op: Operator, l: Tree, r: Tree, t: Tree)
        requires wf(l), wf(r), folded(l), folded(r), op != Operator::Factorial, bin_rule(op, l, r, t)
        ensures simp(bin(op, l, r), t)
    {
        broadcast use {refl, zcong, algebra};
        let s = bin(op, l, r);
        if l is Num && r is Num {
            reveal(refines);
            assert forall|env: Env| #![trigger den(t, env)] #![trigger den(s, env)] den(t, env) == den(s, env) by { assert(den(l, env) == l->Num_0); assert(den(r, env) == r->Num_0); }
            assert forall|env: Env| #![trigger good(t, env, false)] #![trigger good(s, env, false)] good(s, env, false) implies good(t, env, false) && zeq(den(s, env), den(t, env)) by {}
            assert(r_occ(s, t)); assert(r_den(s, t)); assert(r_good(s, t));
        } else {
            assert(!closed(s));
            assert(folded(s));
            assert forall|env: Env| #[trigger] good(s, env, false) implies good(l, env, false) && good(r, env, false) by {}
            if t == s {
            } else { match op {
                Operator::Plus => {
                    if eqs(l, Tree::Num(V0())) && t == r { to_tree(s, t); }
                    else if eqs(r, Tree::Num(V0())) && t == l { to_tree(s, t); }
                    else { 
                        assert forall|env: Env| good(s, env, false) implies zeq(#[trigger] den(s, env), V0()) by { plus_neg(l, r, env); }
                        to_num(s, V0());
                    }
                }
                Operator::Minus => {
                    if eqs(l, Tree::Num(V0())) && t == un(Operator::Minus, r) { minus_0l(l, r); }
                    else if eqs(r, Tree::Num(V0())) && t == l { to_tree(s, t); }
                    else if eqs(l, r) && t == Tree::Num(V0()) {
                        assert forall|env: Env| good(s, env, false) implies zeq(#[trigger] den(s, env), V0()) by { eq_val(l, r, env, false); }
                        to_num(s, V0());
                    } else {
                        let a = neg_arg(r);
                        minus_neg(l, r, a);
                    }
                }
                Operator::Times => {
                    if (eqs(l, Tree::Num(V0())) || eqs(r, Tree::Num(V0()))) && t == Tree::Num(V0()) { to_num(s, V0()); }
                    else if eqs(l, Tree::Num(V1())) && t == r { to_tree(s, t); }
                    else if eqs(r, Tree::Num(V1())) && t == l { to_tree(s, t); }
                    else {
                        let a = neg_arg(l); let b = neg_arg(r);
                        neg_neg(op, l, r, a, b);
                    }
                }
                Operator::Divide => {
                    if eqs(l, Tree::Num(V0())) && t == Tree::Num(V0()) { to_num(s, V0()); }
                    else if eqs(r, Tree::Num(V1())) && t == l { to_tree(s, t); }
                    else if eqs(l, r) && t == Tree::Num(V1()) {
                        assert forall|env: Env| good(s, env, false) implies zeq(#[trigger] den(s, env), V1()) by { eq_val(l, r, env, false); }
                        to_num(s, V1());
                    } else {
                        let a = neg_arg(l); let b = neg_arg(r);
                        neg_neg(op, l, r, a, b);
                    }
                }
                Operator::Power => {
                    if eqs(r, Tree::Num(V0())) && t == Tree::Num(V1()) { to_num(s, V1()); }
                    else { to_tree(s, t); }
                }
                Operator::Modulo => {
                    if eqs(l, Tree::Num(V0())) && t == Tree::Num(V0()) { to_num(s, V0()); }
                    else if eqs(r, Tree::Num(V0())) && t == Tree::Num(VNAN()) { rem_zero(l, r); }
                    else {
                        assert forall|env: Env| good(s, env, false) implies zeq(#[trigger] den(s, env), V0()) by { eq_val(l, r, env, false); }
                        to_num(s, V0());
                    }
                }
                _ => {}
            } }
        }
    }
    proof fn plus_neg(l: Tree, r: Tree, env: Env)
        requires folded(l), folded(r), !closed(bin(Operator::Plus, l, r)), good(bin(Operator::Plus, l, r), env, false),
            (is_neg(l) && eqs(neg_arg(l), r)) || (is_neg(r) && eqs(l, neg_arg(r)))
        ensures zeq(den(bin(Operator::Plus, l, r), env), V0())
    {
        broadcast use {zcong, algebra};
        if is_neg(l) && eqs(neg_arg(l), r) {
            let a = neg_arg(l); assert(l == un(Operator::Minus, a));
            assert(!closed(a)) by { if closed(a) { assert(closed(l)); } }
            assert(good(l, env, false)); assert(good(a, env, false));
            eq_val(a, r, env, false);
            assert(isz(vadd(vneg(den(a, env)), den(r, env))));
        } else {
            let a = neg_arg(r); assert(r == un(Operator::Minus, a));
            assert(good(l, env, false)); assert(good(r, env, false));
            eq_val(l, a, env, false);
            assert(isz(vadd(den(l, env), vneg(den(a, env)))));
        }
    }
    proof fn minus_0l(l: Tree, r: Tree)
        requires wf(l), wf(r), folded(l), folded(r), l is Num, !(r is Num), eqs(l, Tree::Num(V0()))
        ensures simp(bin(Operator::Minus, l, r), un(Operator::Minus, r))
    {
        broadcast use {zcong, algebra};
        let s = bin(Operator::Minus, l, r); let t = un(Operator::Minus, r);
        assert(!closed(r));
        assert(wf(t));
        assert forall|x: Seq<char>| #[trigger] occurs(t, x) implies occurs(s, x) by { assert(occurs(r, x)); }
        assert forall|env: Env| #[trigger] good(s, env, false) implies good(t, env, false) && zeq(den(s, env), den(t, env)) by {
            assert(good(r, env, false)); assert(zeq(vsub(l->Num_0, den(r, env)), vneg(den(r, env))));
        }
        to_tree(s, t);
    }
    proof fn minus_neg(l: Tree, r: Tree, a: Tree)
        requires wf(l), wf(r), folded(l), folded(r), r == un(Operator::Minus, a), !(l is Num && r is Num)
        ensures simp(bin(Operator::Minus, l, r), bin(Operator::Plus, l, a))
    {
        broadcast use {zcong, algebra};
        let s = bin(Operator::Minus, l, r); let t = bin(Operator::Plus, l, a);
        assert(!closed(r)); assert(!closed(a));
        assert(wf(t)); assert(folded(t));
        assert forall|x: Seq<char>| #[trigger] occurs(t, x) implies occurs(s, x) by { assert(occurs(a, x) ==> occurs(r, x)); }
        assert forall|env: Env| #[trigger] good(s, env, false) implies good(t, env, false) && zeq(den(s, env), den(t, env)) by {
            assert(good(l, env, false)); assert(good(r, env, false)); assert(good(a, env, false));
            assert(den(r, env) == vneg(den(a, env)));
        }
        to_tree(s, t);
    }
    proof fn neg_neg(op: Operator, l: Tree, r: Tree, a: Tree, b: Tree)
        requires wf(l), wf(r), folded(l), folded(r), l == un(Operator::Minus, a), r == un(Operator::Minus, b), op == Operator::Times || op == Operator::Divide
        ensures simp(bin(op, l, r), bin(op, a, b))
    {
        broadcast use {zcong, algebra};
        let s = bin(op, l, r); let t = bin(op, a, b);
        assert(!closed(l)); assert(!closed(r)); assert(!closed(a)); assert(!closed(b));
        assert(wf(t)); assert(folded(t));
        assert forall|x: Seq<char>| #[trigger] occurs(t, x) implies occurs(s, x) by { assert(occurs(a, x) ==> occurs(l, x)); assert(occurs(b, x) ==> occurs(r, x)); }
        assert forall|env: Env| #[trigger] good(s, env, false) implies good(t, env, false) && zeq(den(s, env), den(t, env)) by {
            assert(good(l, env, false)); assert(good(r, env, false)); assert(good(a, env, false)); assert(good(b, env, false));
            assert(den(l, env) == vneg(den(a, env))); assert(den(r, env) == vneg(den(b, env)));
        }
        to_tree(s, t);
    }
    proof fn rem_zero(l: Tree, r: Tree)
        requires wf(l), wf(r), folded(l), folded(r), r is Num, !(l is Num), eqs(r, Tree::Num(V0()))
        ensures simp(bin(Operator::Modulo, l, r), Tree::Num(VNAN()))
    {
        broadcast use {zcong, algebra};
        reveal(refines);
        let s = bin(Operator::Modulo, l, r); let t = Tree::Num(VNAN());
        assert(!closed(s));
        assert(r_occ(s, t));
        assert forall|env: Env| #![trigger good(t, env, false)] #![trigger good(s, env, false)] good(s, env, false) implies good(t, env, false) && zeq(den(s, env), den(t, env)) by { assert(isz(den(r, env))); }
        assert(r_good(s, t));
    }
    pub proof fn un_sound(op: Operator, a: Tree, t: Tree)
        requires wf(un(op, a)), folded(a), un_rule(op, a, t)
        ensures simp(un(op, a), t)
    {
        broadcast use {refl, zcong};
        let s = un(op, a);
        reveal(refines);
        if a is Num {
            assert forall|env: Env| #![trigger den(t, env)] #![trigger den(s, env)] den(t, env) == den(s, env) by { assert(den(a, env) == a->Num_0); }
            assert forall|env: Env| #![trigger good(t, env, false)] #![trigger good(s, env, false)] good(s, env, false) implies good(t, env, false) && zeq(den(s, env), den(t, env)) by {}
            assert(r_occ(s, t)); assert(r_den(s, t)); assert(r_good(s, t)); }
        else if t == a {
            assert forall|x: Seq<char>| #![trigger occurs(t, x)] #![trigger occurs(s, x)] occurs(t, x) implies occurs(s, x) by { assert(occurs(a, x)); }
            assert(r_occ(s, t)); assert(r_den(s, t));
            assert forall|env: Env| #![trigger good(t, env, false)] #![trigger good(s, env, false)] good(s, env, false) implies good(t, env, false) && zeq(den(s, env), den(t, env)) by {
                assert(!closed(s)); assert(good(a, env, false)); }
            assert(r_good(s, t));
        }
    }
    /// simplifying both operands, then the node
    pub proof fn bin_simp(op: Operator, a: Tree, b: Tree, l: Tree, r: Tree, t: Tree)
        requires wf(bin(op, a, b)), simp(a, l), simp(b, r), bin_rule(op, l, r, t)
        ensures simp(bin(op, a, b), t)
    {
        cong_bin(op, a, b, l, r);
        assert(wf(l) && wf(r)) by { reveal(refines); }
        bin_sound(op, l, r, t);
        trans(bin(op, a, b), bin(op, l, r), t);
    }
    pub proof fn un_simp(op: Operator, a: Tree, l: Tree, t: Tree)
        requires wf(un(op, a)), simp(a, l), un_rule(op, l, t)
        ensures simp(un(op, a), t)
    {
        cong_un(op, a, l);
        assert(wf(l)) by { reveal(refines); }
        un_sound(op, l, t);
        trans(un(op, a), un(op, l), t);
    }
    pub open spec fn simp_all(s: Seq<Tree>, t: Seq<Tree>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> simp(#[trigger] s[i], #[trigger] t[i]) }
    pub open spec fn all_nums(s: Seq<Tree>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Num }
    pub open spec fn num_vals(s: Seq<Tree>) -> Seq<V> { s.map_values(|t: Tree| t->Num_0) }
    pub broadcast proof fn trees_push(s: Seq<Element>, x: Element) ensures #[trigger] trees(s.push(x)) == trees(s).push(x.tree()) { assert(trees(s.push(x)) =~= trees(s).push(x.tree())); }
    pub broadcast proof fn nums_push(s: Seq<Tree>, t: Tree) ensures #[trigger] all_nums(s.push(t)) == (all_nums(s) && t is Num) {
        let u = s.push(t);
        if all_nums(u) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) is Num by { assert(u[i] is Num); } assert(u[s.len() as int] is Num); }
        if all_nums(s) && t is Num { assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]) is Num by { if i < s.len() { assert(s[i] is Num); } } }
    }
    pub broadcast group pushes { trees_push, nums_push }
    /// simplifying the arguments, then the call: the call itself, or its value when all arguments are numbers
    pub proof fn call_simp(f: FunV, a: Seq<Tree>, b: Seq<Tree>, t: Tree)
        requires wf(Tree::Call(f, a)), simp_all(a, b),
            all_nums(b) && t == Tree::Num(fcall(f.fid, num_vals(b))) || !all_nums(b) && t == Tree::Call(f, b)
        ensures simp(Tree::Call(f, a), t)
    {
        let s = Tree::Call(f, a); let u = Tree::Call(f, b);
        assert(refines_all(a, b));
        cong_call(f, a, b);
        assert(wf(u)) by { reveal(refines); }
        assert forall|i: int| 0 <= i < b.len() implies folded(#[trigger] b[i]) by { assert(simp(a[i], b[i])); }
        if all_nums(b) {
            assert forall|i: int| 0 <= i < b.len() implies closed(#[trigger] b[i]) by { assert(b[i] is Num); }
            assert(closed(u));
            assert forall|env: Env| #[trigger] den(u, env) == t->Num_0 by {
                assert forall|i: int| 0 <= i < b.len() implies #[trigger] dens(b, env)[i] == num_vals(b)[i] by { assert(b[i] is Num); }
                assert(dens(b, env) =~= num_vals(b));
            }
            num_for(u, t->Num_0);
            trans(s, u, t);
        } else {
            let i = choose|i: int| 0 <= i < b.len() && !((#[trigger] b[i]) is Num);
            assert(!closed(b[i]));
            assert(!closed(u));
            assert(folded(u));
        }
    }
    proof fn num_for(u: Tree, v: V)
        requires closed(u), wf(u), u is Call, forall|env: Env| #[trigger] den(u, env) == v
        ensures refines(u, Tree::Num(v))
    {
        reveal(refines);
        broadcast use zcong;
        let t = Tree::Num(v);
        assert(r_occ(u, t));
        assert forall|env: Env| #![trigger den(t, env)] #![trigger den(u, env)] den(t, env) == den(u, env) by { assert(den(u, env) == v); }
        assert(r_den(u, t));
        assert forall|env: Env| #![trigger good(t, env, false)] #![trigger good(u, env, false)] good(u, env, false) implies good(t, env, false) && zeq(den(u, env), den(t, env)) by { assert(den(u, env) == v); }
        assert(r_good(u, t));
    }
}
