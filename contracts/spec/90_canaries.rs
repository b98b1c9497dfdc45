// ===== what must not be provable: the assumptions are not contradictory and the preconditions can be met =====
pub mod canaries {
    use super::*;
    pub proof fn canary_values() ensures false { broadcast use {ax_native::native, ax_ieee::zcong, ax_ieee::algebra}; }
    pub proof fn canary_values_terms(a: V, b: V, x: f64, y: f64, o: f64) requires isz(a), zeq(a, b), ltz(vneg(b)) || !ltz(vneg(b)), fv(x) == a, fv(y) == b, fv(o) == vadd(vmul(a, b), vpow(a, vsub(a, V1()))) ensures false {
        broadcast use {ax_native::native, ax_ieee::zcong, ax_ieee::algebra};
    }
    pub proof fn canary_eval(t: Tree, m: Map<Seq<char>, f64>) requires wf(t), has_all(t, m), t is Call ensures false {
        broadcast use {ax_native::native, tree_facts::has, tree_facts::occ, tree_facts::seqs, tree_facts::meaning};
    }
    pub proof fn canary_simp(t: Tree, u: Tree, x: Seq<char>, v: V, env: Env) requires wf(t), t is Call, simp(t, u), good(t, env, false), fixes(t, seq![(x, v)], u), eqs(t, u) ensures false {
        reveal(refines); reveal(fixes);
        broadcast use {ax_native::native, ax_ieee::zcong, ax_ieee::algebra, tree_lemmas::refl, tree_facts::seqs, rules::pushes};
    }
    #[verifier::rlimit(4)]
    pub proof fn canary_parse(p: ParserImpl, q: ParserImpl, st: St, u: Tree, a: Seq<Tree>, b: Seq<Tree>) requires p_step(p, q), g_element(syms(p), p.input@, p.cursor as int, 0) == Some(st), made(st.t, u), st.t is Call, all_made(a, b), a.len() == 2, p.cursor < q.cursor < p.input@.len(), ensures false {
        broadcast use {parse_facts::parts, tree_lemmas::refl};
    }
    #[verifier::rlimit(4)]
    pub proof fn canary_errors(p: ParserImpl, h: HashSet<&str>, e: ParseError, r: Result<Xprs, ParseError>) requires p_inv(p), h@.len() > 0, err_ok(syms(p), p.input@, 3, e), e.kind is TooFewArguments, parsed(syms(p), Some(h@), p.input@, r), r is Err ensures false {
        reveal(err_ok);
        broadcast use {set_elems_ax, first_in, same_all};
    }
    #[verifier::rlimit(4)]
    pub proof fn canary_display(c: Map<Seq<char>, Symbol>, t: Tree, x: &Xprs, p: &Parser, f: Formatter) requires wf(t), known(c, t), t is Bin, *t->Bin_1 is Num, neg_sign((*t->Bin_1)->Num_0), *t->Bin_2 is Call, x.root.tree() == t, tidy(t), p.ctx.symbols@ == c, ctx_ok(c), f.sure(), calls_known(c, t), apart(c, t), reread::var_names(c, t) ensures false {
        broadcast use {display_facts::writing, vtext_ax};
        reread::back(c, t); reread::norm_means(c, t);
    }
}
