// ===== the grammar =====
// Positions are byte offsets. A result position is where the next token (or the end) stands: whitespace skipped.
pub enum Cls { Ws, Digit, Num, Id }
pub open spec fn in_cls(c: Cls, b: u8) -> bool {
    match c {
        Cls::Ws => is_ws(b),
        Cls::Digit => is_digit(b),
        Cls::Num => is_digit(b) || b == 0x2e || b == 0x5f,
        Cls::Id => is_letter(b) || is_digit(b) || b == 0x5f || b == 0x27,
    }
}
/// the end of the run of bytes of class c starting at i
pub open spec fn run(s: Seq<u8>, i: int, c: Cls) -> int decreases s.len() - i {
    if 0 <= i < s.len() && in_cls(c, s[i]) { run(s, i + 1, c) } else { i }
}
pub open spec fn ws(s: Seq<u8>, i: int) -> int { run(s, i, Cls::Ws) }
pub open spec fn is_at(s: Seq<u8>, i: int, b: u8) -> bool { 0 <= i < s.len() && s[i] == b }
pub open spec fn digit_at(s: Seq<u8>, i: int) -> bool { 0 <= i < s.len() && is_digit(s[i]) }
pub open spec fn txt(s: Seq<u8>, i: int, j: int) -> Seq<char> { vstd::utf8::decode_utf8(s.subrange(i, j)) }
// ---- number literals (C03)
pub open spec fn num_end(s: Seq<u8>, i: int) -> int {
    let j = run(s, i, Cls::Num);
    let e = is_at(s, j, 0x65) || is_at(s, j, 0x45);
    let k = if e && digit_at(s, j + 1) { j + 1 }
        else if e && (is_at(s, j + 1, 0x2b) || is_at(s, j + 1, 0x2d)) && digit_at(s, j + 2) { j + 2 }
        else { j };
    run(s, k, Cls::Digit)
}
pub open spec fn num_value(s: Seq<u8>, i: int) -> Option<V> { f64_of(replaced(txt(s, i, num_end(s, i)), '_', Seq::<char>::empty())) }
// ---- names (C04)
pub open spec fn resolve(c: Map<Seq<char>, Symbol>, name: Seq<char>) -> Meaning {
    if c.dom().contains(name) { match c[name] { Symbol::Variable(v) => Meaning::Con(fv(v)), Symbol::Function(f) => Meaning::Fun(f@) } } else { builtin(name) }
}
/// every function of the context may be called as declared
pub open spec fn ctx_ok(c: Map<Seq<char>, Symbol>) -> bool { forall|n: Seq<char>| #[trigger] c.dom().contains(n) && c[n] is Function ==> fun_ok(c[n]->Function_0@) }
// ---- operators (C02)
pub open spec fn op_of(b: u8) -> Option<Operator> {
    if b == 0x2b { Some(Operator::Plus) } else if b == 0x2d { Some(Operator::Minus) } else if b == 0x2a { Some(Operator::Times) }
    else if b == 0x2f { Some(Operator::Divide) } else if b == 0x5e { Some(Operator::Power) } else if b == 0x25 { Some(Operator::Modulo) } else { None }
}
/// how tightly an operator binds; prefix signs: 3
pub open spec fn tightness(op: Operator) -> int {
    match op { Operator::Plus | Operator::Minus => 1, Operator::Times | Operator::Divide | Operator::Modulo => 2, Operator::Power => 4, Operator::Factorial => 5 }
}
pub open spec fn sign_tightness() -> int { 3 }
#if PEMDAS
pub open spec fn juxtaposed() -> int { 2 }
#else
pub open spec fn juxtaposed() -> int { 3 }
#endif
pub struct St { pub t: Tree, pub p: int, pub num: bool }
/// the binary operator at p, if it binds tighter than m: the operator, its tightness, where its right operand starts
pub open spec fn next_op(s: Seq<u8>, p: int, m: int, num: bool) -> Option<(Operator, int, int)> {
    if !(0 <= p < s.len()) { None } else {
        match op_of(s[p]) {
            Some(op) => if tightness(op) > m { Some((op, tightness(op), p + 1)) } else { None },
            None => if juxtaposed() > m && (is_letter(s[p]) || s[p] == 0x28 || (is_digit(s[p]) && !num)) { Some((Operator::Times, juxtaposed(), p)) } else { None },
        }
    }
}
/// an atom that ends at e, with the factorial that may follow it
pub open spec fn banged(s: Seq<u8>, t: Tree, e: int, num: bool) -> St {
    let p = ws(s, e);
    if is_at(s, p, 0x21) { St { t: un(Operator::Factorial, t), p: ws(s, p + 1), num: false } } else { St { t, p, num } }
}
/// the name at k, with its arguments if it denotes a function; where it ends
pub open spec fn g_ident(c: Map<Seq<char>, Symbol>, s: Seq<u8>, k: int) -> Option<(Tree, int)> decreases s.len() - k, 0int {
    let j = run(s, k, Cls::Id);
    let name = txt(s, k, j);
    match resolve(c, name) {
        Meaning::Con(v) => Some((Tree::Num(v), j)),
        Meaning::Var => Some((Tree::Var(name), j)),
        Meaning::Fun(f) => {
            let p = ws(s, j);
            if !(k < p && is_at(s, p, 0x28)) { None } else {
                match g_args(c, s, p + 1) {
                    Some((a, q)) => if is_at(s, q, 0x29) && arity_ok(f, a.len() as int) { Some((Tree::Call(f, a), q + 1)) } else { None },
                    None => None,
                }
            }
        }
    }
}
pub open spec fn g_atom(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int) -> Option<St> decreases s.len() - i, 1int {
    let k = ws(s, i);
    if !(i <= k < s.len()) { None }
    else if is_digit(s[k]) || s[k] == 0x2e {
        match num_value(s, k) { Some(v) => Some(banged(s, Tree::Num(v), num_end(s, k), true)), None => None }
    } else if is_letter(s[k]) {
        match g_ident(c, s, k) { Some((t, e)) => Some(banged(s, t, e, false)), None => None }
    } else if s[k] == 0x2b || s[k] == 0x2d {
        match g_element(c, s, k + 1, sign_tightness()) {
            Some(st) => Some(St { t: un(if s[k] == 0x2b { Operator::Plus } else { Operator::Minus }, st.t), p: st.p, num: st.num }),
            None => None,
        }
    } else if s[k] == 0x28 {
        match g_element(c, s, k + 1, 0) { Some(st) => if is_at(s, st.p, 0x29) { Some(banged(s, st.t, st.p + 1, false)) } else { None }, None => None }
    } else { None }
}
pub open spec fn g_element(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, m: int) -> Option<St> decreases s.len() - i, 2int {
    match g_atom(c, s, i) { Some(st) => if i < st.p <= s.len() { g_rest(c, s, m, st) } else { None }, None => None }
}
pub open spec fn g_rest(c: Map<Seq<char>, Symbol>, s: Seq<u8>, m: int, st: St) -> Option<St> decreases s.len() - st.p, 3int {
    match next_op(s, st.p, m, st.num) {
        None => Some(st),
        Some((op, q, p)) => match g_element(c, s, p, q) {
            Some(r) => if st.p < r.p <= s.len() { g_rest(c, s, m, St { t: bin(op, st.t, r.t), p: r.p, num: r.num }) } else { None },
            None => None,
        },
    }
}
/// the arguments between the parentheses of a call
pub open spec fn g_args(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int) -> Option<(Seq<Tree>, int)> decreases s.len() - i, 5int {
    let k = ws(s, i);
    if is_at(s, k, 0x29) { Some((Seq::<Tree>::empty(), k)) } else if i <= k <= s.len() { g_more(c, s, k, Seq::<Tree>::empty()) } else { None }
}
pub open spec fn g_more(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, a: Seq<Tree>) -> Option<(Seq<Tree>, int)> decreases s.len() - i, 4int {
    match g_element(c, s, i, 0) {
        Some(st) => if is_at(s, st.p, 0x2c) && i <= st.p { g_more(c, s, st.p + 1, a.push(st.t)) } else if is_at(s, st.p, 0x29) { Some((a.push(st.t), st.p)) } else { None },
        None => None,
    }
}
/// what a whole text denotes
pub open spec fn g_parse(c: Map<Seq<char>, Symbol>, s: Seq<u8>) -> Option<Tree> {
    match g_element(c, s, 0, 0) { Some(st) => if st.p == s.len() { Some(st.t) } else { None }, None => None }
}
// ---- what the parser keeps
pub open spec fn syms(p: ParserImpl) -> Map<Seq<char>, Symbol> { p.ctx.symbols@ }
pub open spec fn bound(s: Seq<u8>, i: int) -> bool { 0 <= i <= s.len() && vstd::utf8::valid_utf8(s.skip(i)) }
pub open spec fn p_inv(p: ParserImpl) -> bool {
    p.input@.len() <= isize::MAX && vstd::utf8::valid_utf8(p.input@) && bound(p.input@, p.cursor as int) && ctx_ok(syms(p))
}
pub open spec fn p_same(p: ParserImpl, q: ParserImpl) -> bool { p.input == q.input && p.ctx == q.ctx }
/// moved from p to q, forwards
pub open spec fn p_step(p: ParserImpl, q: ParserImpl) -> bool { p_inv(q) && p_same(p, q) && p.cursor <= q.cursor }
/// the tree built stands for the tree of the grammar
#if OPT
pub open spec fn built(s: Tree, t: Tree) -> bool { refines(s, t) && wf(t) }
pub open spec fn made(s: Tree, t: Tree) -> bool { simp(s, t) && wf(t) }
#else
pub open spec fn built(s: Tree, t: Tree) -> bool { s == t && wf(t) }
pub open spec fn made(s: Tree, t: Tree) -> bool { s == t && wf(t) }
#endif
pub open spec fn all_made(s: Seq<Tree>, t: Seq<Tree>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> made(#[trigger] s[i], #[trigger] t[i]) }
// ---- errors (C13, C01)
/// the first character of the text from i on
pub open spec fn char_at(s: Seq<u8>, i: int) -> char { vstd::utf8::decode_utf8(s.skip(i))[0] }
/// the call that starts at i: its function, its arguments, where its closing parenthesis stands
pub open spec fn call_at(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, f: FunV, a: Seq<Tree>, q: int) -> bool {
    let j = run(s, i, Cls::Id);
    resolve(c, txt(s, i, j)) == Meaning::Fun(f) && is_at(s, ws(s, j), 0x28) && g_args(c, s, ws(s, j) + 1) == Some((a, q)) && is_at(s, q, 0x29)
}
pub open spec fn in_text(e: ParseError, s: Seq<u8>) -> bool { sbytes(e.src@) == s && e.span.off + e.span.len <= s.len() }
/// an error of ParserImpl, reported with the cursor at cur
#[verifier::opaque]
pub open spec fn err_ok(c: Map<Seq<char>, Symbol>, s: Seq<u8>, cur: int, e: ParseError) -> bool {
    in_text(e, s) && match e.kind {
        ErrorKind::UnexpectedEndOfExpression => cur == s.len() && e.span.len == 0 && e.span.off == (if s.len() == 0 { 0 } else { s.len() - 1 }),
        ErrorKind::UnexpectedToken(ch) => e.span.off == cur && cur < s.len() && bound(s, cur) && ch == char_at(s, cur),
        ErrorKind::IllegalCharacter(ch) => e.span.off < s.len() && bound(s, e.span.off as int) && ch == char_at(s, e.span.off as int),
        ErrorKind::MalformedNumber(t) => num_end(s, e.span.off as int) == e.span.off + e.span.len && t@ == txt(s, e.span.off as int, e.span.off + e.span.len)
            && num_value(s, e.span.off as int) is None && (digit_at(s, e.span.off as int) || is_at(s, e.span.off as int, 0x2e)),
        ErrorKind::ExpectedToken(ch) => e.span.off == cur && e.span.len == 0 && ((ch == '(' && !is_at(s, cur, 0x28)) || (ch == ')' && !is_at(s, cur, 0x29))),
        ErrorKind::TooFewArguments(k, n) => n < k && wrong_count(c, s, e.span, k, n as int),
        ErrorKind::TooManyArguments(k, n) => n > k && wrong_count(c, s, e.span, k, n as int),
        ErrorKind::MissingArgument => e.span.len == 2 && e.span.off + 1 == cur && cur < s.len(),
        ErrorKind::VariableNotDeclared(_, _) => false,
    }
}
/// the error for a text outside the grammar
pub open spec fn rejects(c: Map<Seq<char>, Symbol>, s: Seq<u8>, e: ParseError) -> bool { e.kind !is VariableNotDeclared && exists|cur: int| #[trigger] err_ok(c, s, cur, e) }
/// the error for a text that stands for t, whose tree has a variable outside the expected ones
pub open spec fn undeclared(e: ParseError, s: Seq<u8>, t: Tree, expected: Set<Seq<char>>) -> bool {
    in_text(e, s) && e.kind is VariableNotDeclared && !expected.contains(e.kind->VariableNotDeclared_0@)
    && (exists|u: Tree| #[trigger] made(t, u) && occurs(u, e.kind->VariableNotDeclared_0@))
    && texts(e.kind->VariableNotDeclared_1@).to_set() == expected && texts(e.kind->VariableNotDeclared_1@).no_duplicates()
}
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|k: String| k@) }
/// the first n texts of b
pub open spec fn same_texts(a: Seq<String>, b: Seq<&str>, n: int) -> bool { a.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] a[i])@ == b[i]@ }
pub broadcast proof fn same_all(a: Seq<String>, b: Seq<&str>, n: int) requires #[trigger] same_texts(a, b, n), n == b.len() ensures texts(a) == strs(b) { assert(texts(a) =~= strs(b)); }
pub broadcast proof fn first_in(l: Seq<&str>) requires l.len() > 0 ensures (#[trigger] strs(l).to_set()).contains(l[0]@) { assert(strs(l)[0] == l[0]@); assert(strs(l).to_set().contains(strs(l)[0])); }
pub open spec fn expected_of(c: Context) -> Option<Set<Seq<char>>> { match c.expected_vars { Some(h) => Some(h@), None => None } }
/// what parsing s with the symbols c and the expected variables ex gives
pub open spec fn parsed(c: Map<Seq<char>, Symbol>, ex: Option<Set<Seq<char>>>, s: Seq<u8>, r: Result<Xprs, ParseError>) -> bool {
    match g_parse(c, s) {
        None => r is Err && rejects(c, s, r->Err_0),
        Some(t) => match r {
            Ok(x) => made(t, x.root.tree()) && vars_exact(x) && (ex is Some ==> x.vars@.subset_of(ex->0)),
            Err(e) => ex is Some && undeclared(e, s, t, ex->0),
        },
    }
}
pub open spec fn wrong_count(c: Map<Seq<char>, Symbol>, s: Seq<u8>, sp: SourceSpan, k: u8, n: int) -> bool {
    exists|f: FunV, a: Seq<Tree>, q: int| #[trigger] call_at(c, s, sp.off as int, f, a, q) && f.arity == Some(k) && a.len() == n && sp.off + sp.len == q + 1
}
pub mod text_facts {
    use super::*;
    use vstd::utf8::*;
    pub broadcast proof fn run_ge(s: Seq<u8>, i: int, c: Cls) ensures i <= #[trigger] run(s, i, c), i <= s.len() ==> run(s, i, c) <= s.len() decreases s.len() - i {
        if 0 <= i < s.len() && in_cls(c, s[i]) { run_ge(s, i + 1, c); }
    }
    /// a run stops at a byte outside the class, and is idempotent
    pub broadcast proof fn run_stop(s: Seq<u8>, i: int, c: Cls) ensures run(s, #[trigger] run(s, i, c), c) == run(s, i, c) decreases s.len() - i {
        if 0 <= i < s.len() && in_cls(c, s[i]) { run_stop(s, i + 1, c); }
    }
    pub broadcast proof fn run_in(s: Seq<u8>, i: int, c: Cls, k: int) requires 0 <= i <= k < #[trigger] run(s, i, c) ensures k < s.len(), in_cls(c, #[trigger] s[k]) decreases s.len() - i {
        if 0 <= i < s.len() && in_cls(c, s[i]) { if i < k { run_in(s, i + 1, c, k); } }
    }
    pub proof fn ascii_ok(s: Seq<u8>) requires forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < 128 ensures valid_utf8(s) decreases s.len() {
        if s.len() > 0 {
            let r = s.skip(1);
            assert forall|k: int| 0 <= k < r.len() implies #[trigger] r[k] < 128 by { assert(r[k] == s[k + 1]); }
            ascii_ok(r);
            assert(valid_utf8(r));
            assert(s[0] < 128);
        }
    }
    pub proof fn run_text(s: Seq<u8>, i: int, c: Cls, j: int) ensures 0 <= i <= j <= run(s, i, c) && j <= s.len() ==> valid_utf8(s.subrange(i, j)) {
        if 0 <= i <= j <= run(s, i, c) && j <= s.len() {
            let r = s.subrange(i, j);
            assert forall|k: int| 0 <= k < r.len() implies #[trigger] r[k] < 128 by { run_in(s, i, c, i + k); assert(in_cls(c, s[i + k])); }
            ascii_ok(r);
        }
    }
    /// stepping over an ASCII byte stays on a character boundary
    pub proof fn step1(s: Seq<u8>, i: int) ensures bound(s, i) && i < s.len() && s[i] < 128 ==> bound(s, i + 1) {
        if bound(s, i) && i < s.len() && s[i] < 128 {
            let r = s.skip(i);
            assert(r[0] == s[i]);
            assert(r.skip(1) =~= s.skip(i + 1));
            assert(valid_utf8(r.skip(1)));
        }
    }
    pub proof fn run_bound(s: Seq<u8>, i: int, c: Cls) ensures bound(s, i) ==> bound(s, run(s, i, c)) && i <= run(s, i, c) <= s.len() decreases s.len() - i {
        if bound(s, i) && i < s.len() && in_cls(c, s[i]) { step1(s, i); run_bound(s, i + 1, c); }
    }
    pub proof fn after_ws(s: Seq<u8>, i: int)
        ensures bound(s, i) ==> bound(s, ws(s, i)) && i <= ws(s, i) <= s.len() && (ws(s, i) < s.len() && s[ws(s, i)] < 128 ==> bound(s, ws(s, i) + 1))
    {
        run_bound(s, i, Cls::Ws);
        if bound(s, i) && ws(s, i) < s.len() && s[ws(s, i)] < 128 { step1(s, ws(s, i)); }
    }
    pub proof fn num_bounds(s: Seq<u8>, i: int)
        ensures bound(s, i) && i < s.len() && (is_digit(s[i]) || s[i] == 0x2e) ==>
            bound(s, run(s, i, Cls::Num)) && i < run(s, i, Cls::Num) <= num_end(s, i) <= s.len() && valid_utf8(s.subrange(i, num_end(s, i)))
            && bound(s, num_end(s, i))
            && ({ let j = run(s, i, Cls::Num); j + 1 < s.len() && s[j] < 128 ==> bound(s, j + 1) })
            && ({ let j = run(s, i, Cls::Num); j + 2 < s.len() && s[j] < 128 && s[j + 1] < 128 ==> bound(s, j + 2) }),
    {
        if bound(s, i) && i < s.len() && (is_digit(s[i]) || s[i] == 0x2e) { num_bounds1(s, i); }
    }
    proof fn num_bounds1(s: Seq<u8>, i: int) requires bound(s, i), i < s.len(), is_digit(s[i]) || s[i] == 0x2e
        ensures bound(s, run(s, i, Cls::Num)), i < run(s, i, Cls::Num) <= num_end(s, i) <= s.len(), valid_utf8(s.subrange(i, num_end(s, i))),
            bound(s, num_end(s, i)),
            ({ let j = run(s, i, Cls::Num); j + 1 < s.len() && s[j] < 128 ==> bound(s, j + 1) }),
            ({ let j = run(s, i, Cls::Num); j + 2 < s.len() && s[j] < 128 && s[j + 1] < 128 ==> bound(s, j + 2) }),
    {
        let j = run(s, i, Cls::Num);
        run_bound(s, i, Cls::Num);
        run_ge(s, i + 1, Cls::Num);
        if j < s.len() && s[j] < 128 { step1(s, j); if j + 1 < s.len() && s[j + 1] < 128 { step1(s, j + 1); run_bound(s, j + 2, Cls::Digit); } run_bound(s, j + 1, Cls::Digit); }
        run_bound(s, j, Cls::Digit);
        let e = num_end(s, i);
        let k = if is_at(s, j, 0x65) || is_at(s, j, 0x45) { if digit_at(s, j + 1) { j + 1 } else if (is_at(s, j + 1, 0x2b) || is_at(s, j + 1, 0x2d)) && digit_at(s, j + 2) { j + 2 } else { j } } else { j };
        assert(e == run(s, k, Cls::Digit));
        let r = s.subrange(i, e);
        assert forall|x: int| 0 <= x < r.len() implies #[trigger] r[x] < 128 by {
            if i + x < j { run_in(s, i, Cls::Num, i + x); assert(in_cls(Cls::Num, s[i + x])); }
            else if i + x >= k { run_in(s, k, Cls::Digit, i + x); assert(in_cls(Cls::Digit, s[i + x])); }
        }
        ascii_ok(r);
    }
    pub proof fn whole(t: Seq<char>) ensures valid_utf8(sbytes(t)), bound(sbytes(t), 0) { encode_utf8_valid_utf8(t); assert(sbytes(t).skip(0) =~= sbytes(t)); }
    pub proof fn first_char(s: Seq<u8>, i: int) ensures bound(s, i) && i < s.len() ==> decode_utf8(s.skip(i)).len() > 0 { }
}
/// a predicate on bytes decides membership in c
pub open spec fn pred_is<F: Fn(&u8) -> bool>(f: F, c: Cls) -> bool { forall|b: &u8, r: bool| #[trigger] call_ensures(f, (b,), r) ==> r == in_cls(c, *b) }
/// a predicate on bytes that is defined everywhere and accepts ASCII only
pub open spec fn pred_ascii<F: Fn(&u8) -> bool>(f: F) -> bool {
    &&& forall|b: &u8| #[trigger] call_requires(f, (b,))
    &&& forall|b: &u8, r: bool| #[trigger] call_ensures(f, (b,), r) && r ==> *b < 128
}
/// what is built from parts that stand for the grammar's parts stands for the whole
pub mod parse_facts {
    use super::*;
    pub broadcast proof fn b_made(a: Tree, b: Tree) requires #[trigger] made(a, b) ensures built(a, b) {}
    pub broadcast proof fn b_leaf(t: Tree) requires t is Num || t is Var ensures #[trigger] built(t, t) { broadcast use tree_lemmas::refl; }
    pub broadcast proof fn b_un(op: Operator, a: Tree, b: Tree) requires #[trigger] built(a, b), op == Operator::Plus || op == Operator::Minus || op == Operator::Factorial
        ensures built(un(op, a), #[trigger] un(op, b))
    {
#if OPT
        tree_lemmas::cong_un(op, a, b);
#endif
    }
    pub broadcast proof fn b_bin(op: Operator, a: Tree, b: Tree, c: Tree, d: Tree) requires #[trigger] built(a, c), #[trigger] made(b, d), op != Operator::Factorial
        ensures built(bin(op, a, b), #[trigger] bin(op, c, d))
    {
#if OPT
        tree_lemmas::cong_bin(op, a, b, c, d);
#endif
    }
    pub broadcast proof fn b_simp(a: Tree, b: Tree, c: Tree) requires #[trigger] built(a, b), #[trigger] simp(b, c), wf(c) ensures
#if OPT
        made(a, c)
#else
        true
#endif
    {
#if OPT
        tree_lemmas::trans(a, b, c);
#endif
    }
    pub broadcast proof fn b_calls(a: Seq<Tree>, b: Seq<Tree>) requires #[trigger] all_made(a, b)
        ensures forall|f: FunV| #[trigger] fun_ok(f) && arity_ok(f, a.len() as int) ==> built(Tree::Call(f, a), Tree::Call(f, b))
    {
        assert forall|f: FunV| #[trigger] fun_ok(f) && arity_ok(f, a.len() as int) implies built(Tree::Call(f, a), Tree::Call(f, b)) by {
            assert forall|k: int| 0 <= k < b.len() implies wf(#[trigger] b[k]) by { assert(made(a[k], b[k])); }
            tree_facts::wf_call(f, b);
#if OPT
            assert(refines_all(a, b)); tree_lemmas::cong_call(f, a, b);
#else
            assert(a =~= b);
#endif
        }
    }
    pub broadcast proof fn trees_none(s: Seq<Element>) requires s.len() == 0 ensures #[trigger] trees(s) == Seq::<Tree>::empty() { assert(trees(s) =~= Seq::<Tree>::empty()); }
    pub broadcast proof fn trees_more(s: Seq<Element>, e: Element) ensures #[trigger] trees(s.push(e)) == trees(s).push(e.tree()) { assert(trees(s.push(e)) =~= trees(s).push(e.tree())); }
    pub broadcast proof fn made_more(a: Seq<Tree>, b: Seq<Tree>, c: Tree, d: Tree) requires #[trigger] all_made(a, b), #[trigger] made(c, d) ensures all_made(#[trigger] a.push(c), #[trigger] b.push(d)) {}
    pub broadcast group parts { b_made, b_leaf, b_un, b_bin, b_simp, b_calls, trees_none, trees_more, made_more, text_facts::run_ge, text_facts::run_stop }
}
