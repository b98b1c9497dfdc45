// ===== the real functions, called more than once (C18) =====
/// C18: what the second call gives, whatever was done in between
pub mod twice {
    use super::*;
    /// evaluating with the same values again, after an evaluation with others and without
    pub fn eval_twice(x: &Xprs, m: &HashMap<&str, f64>, other: &HashMap<&str, f64>) -> (r: (Result<f64, EvalError>, Result<f64, EvalError>))
        requires wf(x.root.tree())
        ensures r.0 is Ok == r.1 is Ok, r.0 is Ok ==> fv(r.0->Ok_0) == fv(r.1->Ok_0)
    {
        let a = x.eval(m);
        let _ = x.eval(other);
        let _ = x.eval_no_vars();
        let b = x.eval(m);
        (a, b)
    }
    /// a clone evaluates as its original
    pub fn eval_clone(x: &Xprs, m: &HashMap<&str, f64>) -> (r: (Result<f64, EvalError>, Result<f64, EvalError>))
        requires wf(x.root.tree())
        ensures r.0 is Ok == r.1 is Ok, r.0 is Ok ==> fv(r.0->Ok_0) == fv(r.1->Ok_0)
    {
        let y = x.xclone();
        (x.eval(m), y.eval(m))
    }
    /// the same number whether checked or not
    pub fn eval_both(x: &Xprs, m: &HashMap<&str, f64>) -> (r: (Result<f64, EvalError>, f64))
        requires wf(x.root.tree()), has_all(x.root.tree(), m@)
        ensures r.0 is Ok, fv(r.0->Ok_0) == fv(r.1)
    {
        let a = x.eval(m);
        let b = x.eval_unchecked(m);
        (a, b)
    }
    /// parsing the same text with the same symbols again, with another parser, after another parse
    pub fn parse_twice<'t>(p: &Parser, q: &Parser, text: &'t str, between: &str) -> (r: (Result<Xprs<'t>, ParseError>, Result<Xprs<'t>, ParseError>))
        requires ctx_ok(p.ctx.symbols@), p.ctx.symbols@ == q.ctx.symbols@, expected_of(p.ctx) == expected_of(q.ctx),
        ensures
            expected_of(p.ctx) is None ==> r.0 is Ok == r.1 is Ok,
#if !OPT
            r.0 is Ok == r.1 is Ok,
            r.0 is Ok ==> (r.0->Ok_0).root.tree() == (r.1->Ok_0).root.tree() && (r.0->Ok_0).vars@ == (r.1->Ok_0).vars@,
#else
            r.0 is Ok && r.1 is Ok ==> exists|t: Tree| #[trigger] g_parse(p.ctx.symbols@, sbytes(text@)) == Some(t) && made(t, (r.0->Ok_0).root.tree()) && made(t, (r.1->Ok_0).root.tree()),
#endif
            r.0 is Ok ==> vars_exact(r.0->Ok_0), r.1 is Ok ==> vars_exact(r.1->Ok_0),
    {
        let a = p.parse(text);
        let _ = p.parse(between);
        let b = q.parse(text);
#if !OPT
        proof {
            if a is Ok && b is Ok { assert((a->Ok_0).vars@ =~= (b->Ok_0).vars@); }
        }
#endif
        (a, b)
    }
    /// two parses of one text, evaluated with the same values: equal numbers, where the first evaluates well, and the very same value for a constant
    pub fn parse_eval_twice(p: &Parser, text: &str, m: &HashMap<&str, f64>) -> (r: Option<(f64, f64)>)
        requires ctx_ok(p.ctx.symbols@), expected_of(p.ctx) is None,
        ensures match g_parse(p.ctx.symbols@, sbytes(text@)) {
            None => r is None,
            Some(t) => has_all(t, m@) ==> r is Some && (
#if OPT
                (closed(t) ==> fv((r->0).0) == fv((r->0).1)) && (good(t, env_of(m@), false) ==> zeq(fv((r->0).0), fv((r->0).1)))
#else
                fv((r->0).0) == fv((r->0).1)
#endif
            ),
        },
    {
        broadcast use {tree_facts::has, tree_facts::occ};
        proof { reveal(refines); }
        let a = p.parse(text);
        let b = p.parse(text);
        match (a, b) {
            (Ok(x), Ok(y)) => {
                let ghost t = g_parse(p.ctx.symbols@, sbytes(text@))->0;
                let ghost u = x.root.tree();
                let ghost v = y.root.tree();
                proof {
                    if has_all(t, m@) { fewer(t, u, m@); fewer(t, v, m@); }
                }
                match (x.eval(m), y.eval(m)) {
                    (Ok(v), Ok(w)) => Some((v, w)),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    proof fn fewer(t: Tree, u: Tree, m: Map<Seq<char>, f64>) requires made(t, u), has_all(t, m) ensures has_all(u, m) {
        reveal(refines);
        assert(r_occ(t, u));
        assert forall|x: Seq<char>| #[trigger] occurs(u, x) implies m.dom().contains(x) by { assert(occurs(t, x)); }
    }
}
