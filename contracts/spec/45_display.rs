// ===== display, and what parsing the text again gives (C14) =====
pub mod display_facts {
    use super::*;
    pub broadcast proof fn cat(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] (a + (b + c)) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
    pub broadcast proof fn lits(f: Formatter) ensures (#[trigger] f.sure()) || true,
        "("@ == seq!['('], ")"@ == seq![')'], " "@ == seq![' '], ", "@ == seq![',', ' '],
        "!"@ == seq!['!'], "+"@ == seq!['+'], "-"@ == seq!['-'], "*"@ == seq!['*'], "/"@ == seq!['/'], "^"@ == seq!['^'], "%"@ == seq!['%']
    {
        reveal_strlit("("); reveal_strlit(")"); reveal_strlit(" "); reveal_strlit(", "); reveal_strlit("!"); reveal_strlit("+"); reveal_strlit("-"); reveal_strlit("*"); reveal_strlit("/"); reveal_strlit("^"); reveal_strlit("%");
        assert("("@ =~= seq!['(']); assert(")"@ =~= seq![')']); assert(" "@ =~= seq![' ']); assert(", "@ =~= seq![',', ' ']); assert("!"@ =~= seq!['!']); assert("+"@ =~= seq!['+']);
        assert("-"@ =~= seq!['-']); assert("*"@ =~= seq!['*']); assert("/"@ =~= seq!['/']); assert("^"@ =~= seq!['^']); assert("%"@ =~= seq!['%']);
    }
    pub open spec fn texts_of(s: Seq<String>, a: Seq<Element>, n: int) -> bool { s.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] s[k])@ == disp(a[k].tree()) }
    pub broadcast group writing { cat, lits, ax_ieee::finite_ax }
    pub proof fn tidy_arg(t: Tree, i: int) requires t is Call, tidy(t), 0 <= i < t->Call_1.len() ensures tidy(t->Call_1[i]) {}
}
// ---- what the parser reads back: a negative number becomes a sign and a number
pub open spec fn norm(t: Tree) -> Tree decreases t {
    match t {
        Tree::Num(v) => if neg_sign(v) { un(Operator::Minus, Tree::Num(vneg(v))) } else { t },
        Tree::Var(_) => t,
        Tree::Un(op, a) => Tree::Un(op, Box::new(norm(*a))),
        Tree::Bin(op, a, b) => Tree::Bin(op, Box::new(norm(*a)), Box::new(norm(*b))),
        Tree::Call(f, args) => Tree::Call(f, norms(args)),
    }
}
pub open spec fn norms(args: Seq<Tree>) -> Seq<Tree> decreases args {
    Seq::new(args.len(), |i: int| if 0 <= i < args.len() { norm(args[i]) } else { arbitrary() })
}
/// a letter, then letters, digits, underscores and quotes
pub open spec fn ident(x: Seq<char>) -> bool {
    sbytes(x).len() > 0 && is_letter(sbytes(x)[0]) && forall|k: int| 0 <= k < sbytes(x).len() ==> in_cls(Cls::Id, #[trigger] sbytes(x)[k])
}
/// every function of t is what its own name denotes in c, every variable of t is one there, every number is finite
pub open spec fn known(c: Map<Seq<char>, Symbol>, t: Tree) -> bool decreases t {
    match t {
        Tree::Num(v) => finite(v),
        Tree::Var(x) => ident(x) && resolve(c, x) == Meaning::Var,
        Tree::Un(op, a) => known(c, *a),
        Tree::Bin(op, a, b) => known(c, *a) && known(c, *b),
        Tree::Call(f, args) => ident(f.name) && resolve(c, f.name) == Meaning::Fun(f) && forall|i: int| 0 <= i < args.len() ==> known(c, #[trigger] args[i]),
    }
}
/// the text of a finite number that is not negative
pub open spec fn num_chars(s: Seq<char>) -> bool { s.len() > 0 && forall|k: int| 0 <= k < s.len() ==> '0' <= (#[trigger] s[k]) <= '9' || s[k] == '.' }
/// how Rust writes finite numbers: digits with at most one point, preceded by - if negative; read back exactly
pub axiom fn number_text(v: V) requires finite(v) ensures
    !neg_sign(v) ==> num_chars(vtext(v)) && f64_of(vtext(v)) == Some(v),
    neg_sign(v) ==> vtext(v) == seq!['-'] + vtext(vneg(v));
pub broadcast proof fn vtext_ax(v: V) requires finite(v) ensures
    !neg_sign(v) ==> num_chars(#[trigger] vtext(v)) && f64_of(vtext(v)) == Some(v),
    neg_sign(v) ==> vtext(v) == seq!['-'] + vtext(vneg(v)) && finite(vneg(v)) && !neg_sign(vneg(v)) && vneg(vneg(v)) == v,
{ number_text(v); if neg_sign(v) { ax_ieee::neg_parts(v); } }
pub mod reread {
    use super::*;
    use vstd::utf8::*;
    /// b stands at i in s
    pub open spec fn at(s: Seq<u8>, i: int, b: Seq<u8>) -> bool { 0 <= i && i + b.len() <= s.len() && forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] == s[i + k] }
    pub proof fn at_cat(s: Seq<u8>, i: int, a: Seq<u8>, b: Seq<u8>) requires at(s, i, a + b) ensures at(s, i, a), at(s, i + a.len(), b) {
        assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] == s[i + k] by { assert((a + b)[k] == s[i + k]); }
        assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] == s[i + a.len() + k] by { assert((a + b)[a.len() + k] == s[i + (a.len() + k)]); }
    }
    pub proof fn at_sub(s: Seq<u8>, i: int, b: Seq<u8>) requires at(s, i, b) ensures s.subrange(i, i + b.len()) == b { assert(s.subrange(i, i + b.len()) =~= b); }
    pub proof fn one(c: char) requires (c as u32) < 128 ensures sbytes(seq![c]) == seq![c as u8] {
        let s = seq![c];
        assert(is_ascii_chars(s));
        is_ascii_chars_encode_utf8(s);
        assert(sbytes(s) =~= seq![c as u8]);
    }
    /// a text that consists of a, an ASCII character and b
    pub proof fn cut3(s: Seq<u8>, i: int, a: Seq<char>, c: char, b: Seq<char>) requires at(s, i, sbytes(a + seq![c] + b)), (c as u32) < 128
        ensures at(s, i, sbytes(a)), s[i + sbytes(a).len()] == c as u8, i + sbytes(a).len() < s.len(), at(s, i + sbytes(a).len() + 1, sbytes(b)),
            sbytes(a + seq![c] + b).len() == sbytes(a).len() + 1 + sbytes(b).len()
    {
        encode_utf8_concat(a + seq![c], b);
        encode_utf8_concat(a, seq![c]);
        one(c);
        at_cat(s, i, sbytes(a + seq![c]), sbytes(b));
        at_cat(s, i, sbytes(a), seq![c as u8]);
        assert(seq![c as u8][0] == s[i + sbytes(a).len() + 0]);
    }
    pub proof fn cut_paren(s: Seq<u8>, i: int, a: Seq<char>) requires at(s, i, sbytes(paren(a)))
        ensures is_at(s, i, 0x28), at(s, i + 1, sbytes(a)), is_at(s, i + 1 + sbytes(a).len(), 0x29), sbytes(paren(a)).len() == sbytes(a).len() + 2
    {
        assert(paren(a) =~= (seq!['('] + a) + seq![')'] + Seq::<char>::empty());
        cut3(s, i, seq!['('] + a, ')', Seq::empty());
        assert(seq!['('] + a =~= Seq::<char>::empty() + seq!['('] + a);
        cut3(s, i, Seq::empty(), '(', a);
        none();
    }
    pub proof fn none() ensures sbytes(Seq::<char>::empty()).len() == 0 { is_ascii_chars_encode_utf8(Seq::<char>::empty()); }
    /// c and then a
    pub proof fn cut_first(s: Seq<u8>, i: int, c: char, a: Seq<char>) requires at(s, i, sbytes(seq![c] + a)), (c as u32) < 128
        ensures is_at(s, i, c as u8), at(s, i + 1, sbytes(a)), sbytes(seq![c] + a).len() == 1 + sbytes(a).len()
    {
        assert(seq![c] + a =~= Seq::<char>::empty() + seq![c] + a);
        cut3(s, i, Seq::empty(), c, a);
        none();
    }
    /// a and then c
    pub proof fn cut_last(s: Seq<u8>, i: int, a: Seq<char>, c: char) requires at(s, i, sbytes(a + seq![c])), (c as u32) < 128
        ensures is_at(s, i + sbytes(a).len(), c as u8), at(s, i, sbytes(a)), sbytes(a + seq![c]).len() == 1 + sbytes(a).len()
    {
        assert(a + seq![c] =~= a + seq![c] + Seq::<char>::empty());
        cut3(s, i, a, c, Seq::empty());
        none();
    }
    /// the byte after a displayed part
    pub open spec fn follow(s: Seq<u8>, j: int) -> bool { j == s.len() || (0 <= j < s.len() && (s[j] == 0x20 || s[j] == 0x29 || s[j] == 0x2c || s[j] == 0x21)) }
    /// no operator that binds tighter than a sign stands at p
    pub open spec fn calm(s: Seq<u8>, p: int) -> bool {
        p == s.len() || (0 <= p < s.len() && (s[p] == 0x29 || s[p] == 0x2c || (op_of(s[p]) is Some && tightness(op_of(s[p])->0) <= 2)))
    }
    pub open spec fn ends(s: Seq<u8>, p: int) -> bool { p == s.len() || (0 <= p < s.len() && (s[p] == 0x29 || s[p] == 0x2c)) }
    pub open spec fn negnum(t: Tree) -> bool { t is Num && neg_sign(t->Num_0) }
    proof fn run_is(s: Seq<u8>, i: int, j: int, c: Cls) requires 0 <= i <= j <= s.len(), forall|k: int| i <= k < j ==> in_cls(c, #[trigger] s[k]), j == s.len() || !in_cls(c, s[j])
        ensures run(s, i, c) == j decreases j - i
    { if i < j { assert(in_cls(c, s[i])); run_is(s, i + 1, j, c); } }
    proof fn ws_none(s: Seq<u8>, i: int) requires 0 <= i, i >= s.len() || !is_ws(s[i]) ensures ws(s, i) == i {}
    proof fn ws_one(s: Seq<u8>, i: int) requires is_at(s, i, 0x20), i + 1 >= s.len() || ws(s, i + 1) == i + 1 ensures ws(s, i) == i + 1 { assert(run(s, i + 1, Cls::Ws) == i + 1); }
    /// leading whitespace does not matter to an atom
    proof fn atom_ws(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, k: int) requires 0 <= i <= k <= s.len(), ws(s, i) == k, ws(s, k) == k ensures g_atom(c, s, i) == g_atom(c, s, k) {}
    proof fn rest_stop(c: Map<Seq<char>, Symbol>, s: Seq<u8>, m: int, st: St) requires next_op(s, st.p, m, st.num) is None ensures g_rest(c, s, m, st) == Some(st) {}
    proof fn rest_step(c: Map<Seq<char>, Symbol>, s: Seq<u8>, m: int, st: St, op: Operator, q: int, p: int, r: St)
        requires next_op(s, st.p, m, st.num) == Some((op, q, p)), g_element(c, s, p, q) == Some(r), st.p < r.p <= s.len(), next_op(s, r.p, m, r.num) is None
        ensures g_rest(c, s, m, st) == Some(St { t: bin(op, st.t, r.t), p: r.p, num: r.num })
    { rest_stop(c, s, m, St { t: bin(op, st.t, r.t), p: r.p, num: r.num }); }
    proof fn element_of(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, m: int, st: St) requires g_atom(c, s, i) == Some(st), i < st.p <= s.len() ensures g_element(c, s, i, m) == g_rest(c, s, m, st) {}
    proof fn paren_atom(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, st: St) requires is_at(s, i, 0x28), g_element(c, s, i + 1, 0) == Some(st), is_at(s, st.p, 0x29)
        ensures ws(s, i) == i, g_atom(c, s, i) == Some(banged(s, st.t, st.p + 1, false)) {}
    proof fn sign_atom(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, op: Operator, st: St)
        requires (op == Operator::Plus && is_at(s, i, 0x2b)) || (op == Operator::Minus && is_at(s, i, 0x2d)), g_element(c, s, i + 1, sign_tightness()) == Some(st)
        ensures ws(s, i) == i, g_atom(c, s, i) == Some(St { t: un(op, st.t), p: st.p, num: st.num }) {}
    proof fn plain(s: Seq<char>) requires forall|k: int| 0 <= k < s.len() ==> s[k] != '_' ensures replaced(s, '_', Seq::<char>::empty()) == s decreases s.len() {
        if s.len() > 0 {
            assert forall|k: int| 0 <= k < s.drop_last().len() implies s.drop_last()[k] != '_' by { assert(s.drop_last()[k] == s[k]); }
            plain(s.drop_last());
            assert(s.last() == s[s.len() - 1]);
            assert(s =~= s.drop_last() + seq![s.last()]);
        }
    }
    /// a number that is not negative
    proof fn num_atom(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, v: V)
        requires finite(v), !neg_sign(v), at(s, i, sbytes(vtext(v))), follow(s, i + sbytes(vtext(v)).len())
        ensures ws(s, i) == i, sbytes(vtext(v)).len() > 0, g_atom(c, s, i) == Some(banged(s, Tree::Num(v), i + sbytes(vtext(v)).len(), true))
    {
        vtext_ax(v);
        let w = vtext(v); let b = sbytes(w); let j = i + b.len();
        assert forall|k: int| 0 <= k < w.len() implies (w[k] as u32) < 128 by {}
        assert(is_ascii_chars(w));
        is_ascii_chars_encode_utf8(w);
        assert forall|k: int| i <= k < j implies is_digit(#[trigger] s[k]) || s[k] == 0x2e by { assert(b[k - i] == s[i + (k - i)]); assert(w[k - i] as u8 == b[k - i]); }
        run_is(s, i, j, Cls::Num);
        assert(s[i] == s[i + 0]);
        assert(num_end(s, i) == j);
        at_sub(s, i, b);
        encode_utf8_decode_utf8(w);
        assert(txt(s, i, j) == w);
        plain(w);
    }
    /// a name
    proof fn name_run(s: Seq<u8>, i: int, x: Seq<char>) requires ident(x), at(s, i, sbytes(x)), i + sbytes(x).len() == s.len() || !in_cls(Cls::Id, s[i + sbytes(x).len()])
        ensures ws(s, i) == i, is_letter(s[i]), run(s, i, Cls::Id) == i + sbytes(x).len(), txt(s, i, i + sbytes(x).len()) == x
    {
        let b = sbytes(x); let j = i + b.len();
        assert forall|k: int| i <= k < j implies in_cls(Cls::Id, #[trigger] s[k]) by { assert(b[k - i] == s[i + (k - i)]); }
        assert(b[0] == s[i + 0]);
        run_is(s, i, j, Cls::Id);
        at_sub(s, i, b);
        encode_utf8_decode_utf8(x);
    }
    /// the parts of a list from the n-th on, as joined() writes them after the first n
    pub open spec fn from_nth(d: Seq<Seq<char>>, n: int) -> Seq<char> decreases d.len() - n {
        if 0 <= n < d.len() { (if n == 0 { Seq::<char>::empty() } else { seq![',', ' '] }) + d[n] + from_nth(d, n + 1) } else { Seq::empty() }
    }
    proof fn joined_from(d: Seq<Seq<char>>, n: int) requires 0 <= n <= d.len() ensures joined(d.take(n), seq![',', ' ']) + from_nth(d, n) == joined(d, seq![',', ' ']) decreases d.len() - n {
        let sep = seq![',', ' '];
        if n == d.len() { assert(d.take(n) =~= d); assert(joined(d, sep) + Seq::<char>::empty() =~= joined(d, sep)); }
        else {
            joined_from(d, n + 1);
            let a = d.take(n + 1);
            assert(a.drop_last() =~= d.take(n)); assert(a.last() == d[n]);
            if n == 0 { assert(joined(a, sep) == a[0]); assert(joined(d.take(0), sep) =~= Seq::<char>::empty()); }
            else { assert(joined(a, sep) == joined(d.take(n), sep) + sep + d[n]); }
            assert(joined(d.take(n), sep) + from_nth(d, n) =~= joined(a, sep) + from_nth(d, n + 1));
        }
    }
    proof fn more_next(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, a: Seq<Tree>, st: St) requires g_element(c, s, i, 0) == Some(st), is_at(s, st.p, 0x2c), i <= st.p ensures g_more(c, s, i, a) == g_more(c, s, st.p + 1, a.push(st.t)) {}
    proof fn more_last(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, a: Seq<Tree>, st: St) requires g_element(c, s, i, 0) == Some(st), is_at(s, st.p, 0x29) ensures g_more(c, s, i, a) == Some((a.push(st.t), st.p)) {}
    proof fn args_none(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int) requires is_at(s, i, 0x29) ensures g_args(c, s, i) == Some((Seq::<Tree>::empty(), i)) {}
    proof fn args_some(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int) requires 0 <= i < s.len(), ws(s, i) == i, s[i] != 0x29 ensures g_args(c, s, i) == g_more(c, s, i, Seq::<Tree>::empty()) {}
    proof fn call_atom(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, f: FunV, a: Seq<Tree>, q: int)
        requires 0 <= i < s.len(), is_letter(s[i]), ({ let j = run(s, i, Cls::Id); i < j && resolve(c, txt(s, i, j)) == Meaning::Fun(f) && is_at(s, j, 0x28) && g_args(c, s, j + 1) == Some((a, q)) }), is_at(s, q, 0x29), arity_ok(f, a.len() as int)
        ensures ws(s, i) == i, g_atom(c, s, i) == Some(banged(s, Tree::Call(f, a), q + 1, false))
    {
        let j = run(s, i, Cls::Id);
        ws_none(s, j); ws_none(s, i);
        assert(g_ident(c, s, i) == Some((Tree::Call(f, a), q + 1)));
    }
    proof fn var_atom(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, x: Seq<char>)
        requires 0 <= i < s.len(), is_letter(s[i]), txt(s, i, run(s, i, Cls::Id)) == x, resolve(c, x) == Meaning::Var
        ensures ws(s, i) == i, g_atom(c, s, i) == Some(banged(s, Tree::Var(x), run(s, i, Cls::Id), false))
    {
        ws_none(s, i);
        assert(g_ident(c, s, i) == Some((Tree::Var(x), run(s, i, Cls::Id))));
    }
    proof fn known_arg(c: Map<Seq<char>, Symbol>, t: Tree, i: int) requires t is Call, known(c, t), wf(t), 0 <= i < t->Call_1.len() ensures known(c, t->Call_1[i]), wf(t->Call_1[i]) {}
    /// an element that the next byte ends
    proof fn element(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i0: int, i: int, m: int, t: Tree)
        requires wf(t), known(c, t), 0 <= i0 <= i, ws(s, i0) == i, at(s, i, sbytes(disp(t))), ends(s, i + sbytes(disp(t)).len()), m >= 0
        ensures g_element(c, s, i0, m) == Some(St { t: norm(t), p: i + sbytes(disp(t)).len(), num: (g_element(c, s, i0, m)->0).num })
        decreases t, 3int, 0int
    {
        hide(g_atom); hide(g_element); hide(g_rest); hide(g_more); hide(g_args); hide(g_ident); hide(run); hide(num_end);
        let j = i + sbytes(disp(t)).len();
        atom(c, s, i, t);
        atom_ws(c, s, i0, i);
        ws_none(s, j);
        let st = g_atom(c, s, i0)->0;
        assert(st == St { t: norm(t), p: j, num: st.num });
        element_of(c, s, i0, m, st);
        rest_stop(c, s, m, st);
        assert(g_element(c, s, i0, m) == Some(St { t: norm(t), p: i + sbytes(disp(t)).len(), num: st.num }));
    }
    /// the operand of a factorial or the base of a power
    proof fn operand(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, t: Tree)
        requires wf(t), known(c, t), at(s, i, sbytes(as_operand(t, disp(t)))), follow(s, i + sbytes(as_operand(t, disp(t))).len())
        ensures ws(s, i) == i, sbytes(as_operand(t, disp(t))).len() > 0, g_atom(c, s, i) == Some(banged(s, norm(t), i + sbytes(as_operand(t, disp(t))).len(), t is Num && !negnum(t)))
        decreases t, 4int, 0int
    {
        hide(g_atom); hide(g_element); hide(g_rest); hide(g_more); hide(g_args); hide(g_ident); hide(run); hide(num_end);
        if negnum(t) {
            cut_paren(s, i, disp(t));
            vtext_ax(t->Num_0);
            cut_first(s, i + 1, '-', vtext(vneg(t->Num_0)));
            ws_none(s, i + 1);
            element(c, s, i + 1, i + 1, 0, t);
            let b = (g_element(c, s, i + 1, 0)->0).num;
            paren_atom(c, s, i, St { t: norm(t), p: i + 1 + sbytes(disp(t)).len(), num: b });
        } else { atom(c, s, i, t); }
    }
    proof fn atom(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, t: Tree)
        requires wf(t), known(c, t), at(s, i, sbytes(disp(t))), follow(s, i + sbytes(disp(t)).len())
        ensures ws(s, i) == i, sbytes(disp(t)).len() > 0, i < s.len(),
            !negnum(t) ==> g_atom(c, s, i) == Some(banged(s, norm(t), i + sbytes(disp(t)).len(), t is Num)),
            negnum(t) && calm(s, ws(s, i + sbytes(disp(t)).len())) ==> g_atom(c, s, i) == Some(St { t: norm(t), p: ws(s, i + sbytes(disp(t)).len()), num: true }),
        decreases t, 2int, 0int
    {
        hide(g_atom); hide(g_element); hide(g_rest); hide(g_more); hide(g_args); hide(g_ident); hide(run); hide(num_end);
        let j = i + sbytes(disp(t)).len();
        match t {
            Tree::Num(v) => {
                vtext_ax(v);
                if neg_sign(v) {
                    let w = vneg(v);
                    vtext_ax(w);
                    cut_first(s, i, '-', vtext(w));
                    ws_none(s, i);
                    num_atom(c, s, i + 1, w);
                    if calm(s, ws(s, j)) {
                        let st = St { t: Tree::Num(w), p: ws(s, j), num: true };
                        assert(banged(s, Tree::Num(w), j, true) == st);
                        text_facts::run_ge(s, j, Cls::Ws);
                        element_of(c, s, i + 1, sign_tightness(), st);
                        rest_stop(c, s, sign_tightness(), st);
                        sign_atom(c, s, i, Operator::Minus, st);
                    }
                } else { num_atom(c, s, i, v); }
            }
            Tree::Var(x) => { name_run(s, i, x); var_atom(c, s, i, x); }
            Tree::Un(_, _) => { atom_un(c, s, i, t); }
            Tree::Bin(_, _, _) => { atom_bin(c, s, i, t); }
            Tree::Call(_, _) => { atom_call(c, s, i, t); }
        }
    }
    proof fn atom_un(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, t: Tree)
        requires t is Un, wf(t), known(c, t), at(s, i, sbytes(disp(t))), follow(s, i + sbytes(disp(t)).len())
        ensures ws(s, i) == i, sbytes(disp(t)).len() > 0, i < s.len(), g_atom(c, s, i) == Some(banged(s, norm(t), i + sbytes(disp(t)).len(), false)),
        decreases t, 1int, 0int
    {
        hide(g_atom); hide(g_element); hide(g_rest); hide(g_more); hide(g_args); hide(g_ident); hide(run); hide(num_end);
        let j = i + sbytes(disp(t)).len();
        match t {
            Tree::Un(op, a) => {
                let d = disp(*a);
                if op == Operator::Factorial {
                    let w = as_operand(*a, d);
                    cut_paren(s, i, w + seq!['!']);
                    cut_last(s, i + 1, w, '!');
                    operand(c, s, i + 1, *a);
                    let e = i + 1 + sbytes(w).len();
                    ws_none(s, e); ws_none(s, e + 1);
                    let st = St { t: norm(t), p: e + 1, num: false };
                    assert(g_atom(c, s, i + 1) == Some(st));
                    element_of(c, s, i + 1, 0, st);
                    rest_stop(c, s, 0, st);
                    paren_atom(c, s, i, st);
                } else {
                    cut_paren(s, i, seq![op_char(op)] + d);
                    cut_first(s, i + 1, op_char(op), d);
                    shown(c, s, i + 2, *a);
                    element(c, s, i + 2, i + 2, sign_tightness(), *a);
                    let e = i + 2 + sbytes(d).len();
                    let b = (g_element(c, s, i + 2, sign_tightness())->0).num;
                    sign_atom(c, s, i + 1, op, St { t: norm(*a), p: e, num: b });
                    let st = St { t: norm(t), p: e, num: b };
                    element_of(c, s, i + 1, 0, st);
                    rest_stop(c, s, 0, st);
                    paren_atom(c, s, i, st);
                }
            }
            _ => {}
        }
    }
    proof fn bin_cut(s: Seq<u8>, i: int, l: Seq<char>, o: char, r: Seq<char>)
        requires at(s, i, sbytes(paren(l + seq![' '] + seq![o] + seq![' '] + r))), (o as u32) < 128
        ensures is_at(s, i, 0x28), at(s, i + 1, sbytes(l)), is_at(s, i + 1 + sbytes(l).len(), 0x20), is_at(s, i + 2 + sbytes(l).len(), o as u8),
            is_at(s, i + 3 + sbytes(l).len(), 0x20), at(s, i + 4 + sbytes(l).len(), sbytes(r)), is_at(s, i + 4 + sbytes(l).len() + sbytes(r).len(), 0x29),
            sbytes(paren(l + seq![' '] + seq![o] + seq![' '] + r)).len() == sbytes(l).len() + 5 + sbytes(r).len(),
    {
        cut_paren(s, i, l + seq![' '] + seq![o] + seq![' '] + r);
        cut3(s, i + 1, l + seq![' '] + seq![o], ' ', r);
        cut_last(s, i + 1, l + seq![' '], o);
        cut_last(s, i + 1, l, ' ');
    }
    /// what follows the left operand, up to the closing parenthesis
    proof fn bin_rest(c: Map<Seq<char>, Symbol>, s: Seq<u8>, e: int, op: Operator, st: St, b: Tree)
        requires !(op == Operator::Factorial), wf(b), known(c, b), st.p == e + 1, is_at(s, e, 0x20), is_at(s, e + 1, op_char(op) as u8), is_at(s, e + 2, 0x20),
            at(s, e + 3, sbytes(disp(b))), is_at(s, e + 3 + sbytes(disp(b)).len(), 0x29), 0 <= e,
        ensures ({ let z = e + 3 + sbytes(disp(b)).len(); g_rest(c, s, 0, st) == Some(St { t: bin(op, st.t, norm(b)), p: z, num: (g_element(c, s, e + 2, tightness(op))->0).num }) }),
        decreases b, 4int, 0int
    {
        hide(g_atom); hide(g_element); hide(g_rest); hide(g_more); hide(g_args); hide(g_ident); hide(run); hide(num_end);
        let q = tightness(op);
        assert(next_op(s, e + 1, 0, st.num) == Some((op, q, e + 2)));
        shown(c, s, e + 3, b);
        ws_one(s, e + 2);
        element(c, s, e + 2, e + 3, q, b);
        let z = e + 3 + sbytes(disp(b)).len();
        let n = (g_element(c, s, e + 2, q)->0).num;
        assert(next_op(s, z, 0, n) is None);
        rest_step(c, s, 0, st, op, q, e + 2, St { t: norm(b), p: z, num: n });
    }
    proof fn atom_bin(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, t: Tree)
        requires t is Bin, wf(t), known(c, t), at(s, i, sbytes(disp(t))), follow(s, i + sbytes(disp(t)).len())
        ensures ws(s, i) == i, sbytes(disp(t)).len() > 0, i < s.len(), g_atom(c, s, i) == Some(banged(s, norm(t), i + sbytes(disp(t)).len(), false)),
        decreases t, 1int, 0int
    {
        hide(g_atom); hide(g_element); hide(g_rest); hide(g_more); hide(g_args); hide(g_ident); hide(run); hide(num_end);
        match t {
            Tree::Bin(op, a, b) => {
                let l = if op == Operator::Power { as_operand(*a, disp(*a)) } else { disp(*a) }; let r = disp(*b);
                bin_cut(s, i, l, op_char(op), r);
                let e = i + 1 + sbytes(l).len();
                ws_none(s, e + 1);
                ws_one(s, e);
                bin_left(c, s, i + 1, op, *a);
                let st = g_atom(c, s, i + 1)->0;
                assert(st == St { t: norm(*a), p: e + 1, num: st.num });
                element_of(c, s, i + 1, 0, st);
                bin_rest(c, s, e, op, st, *b);
                paren_atom(c, s, i, g_element(c, s, i + 1, 0)->0);
            }
            _ => {}
        }
    }
    proof fn bin_left(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, op: Operator, a: Tree)
        requires !(op == Operator::Factorial), wf(a), known(c, a), ({ let l = if op == Operator::Power { as_operand(a, disp(a)) } else { disp(a) }; let e = i + sbytes(l).len();
            &&& at(s, i, sbytes(l)) &&& is_at(s, e, 0x20) &&& is_at(s, e + 1, op_char(op) as u8) &&& ws(s, e) == e + 1 })
        ensures g_atom(c, s, i) is Some, (g_atom(c, s, i)->0).t == norm(a), (g_atom(c, s, i)->0).p == i + 1 + sbytes(if op == Operator::Power { as_operand(a, disp(a)) } else { disp(a) }).len(),
        decreases a, 5int, 0int
    {
        hide(g_atom); hide(g_element); hide(g_rest); hide(g_more); hide(g_args); hide(g_ident); hide(run); hide(num_end);
        if op == Operator::Power { operand(c, s, i, a); } else { atom(c, s, i, a); }
    }
    proof fn atom_call(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, t: Tree)
        requires t is Call, wf(t), known(c, t), at(s, i, sbytes(disp(t))), follow(s, i + sbytes(disp(t)).len())
        ensures ws(s, i) == i, sbytes(disp(t)).len() > 0, i < s.len(), g_atom(c, s, i) == Some(banged(s, norm(t), i + sbytes(disp(t)).len(), false)),
        decreases t, 1int, 0int
    {
        hide(g_atom); hide(g_element); hide(g_rest); hide(g_more); hide(g_args); hide(g_ident); hide(run); hide(num_end);
        let j = i + sbytes(disp(t)).len();
        match t {
            Tree::Call(f, args) => {
                let sep = seq![',', ' ']; let inner = joined(disps(args), sep);
                encode_utf8_concat(f.name, paren(inner));
                at_cat(s, i, sbytes(f.name), sbytes(paren(inner)));
                let p = i + sbytes(f.name).len();
                cut_paren(s, p, inner);
                name_run(s, i, f.name);
                ws_none(s, p);
                joined_from(disps(args), 0);
                assert(joined(disps(args).take(0), sep) + from_nth(disps(args), 0) =~= from_nth(disps(args), 0));
                let e = p + 1 + sbytes(inner).len();
                if args.len() == 0 {
                    none();
                    args_none(c, s, p + 1);
                    assert(norms(args) =~= Seq::<Tree>::empty());
                } else {
                    assert(from_nth(disps(args), 0) =~= disp(args[0]) + from_nth(disps(args), 1));
                    assert(norms(args).take(0) =~= Seq::<Tree>::empty());
                    more(c, s, p + 1, p + 1, t, 0);
                    known_arg(c, t, 0);
                    encode_utf8_concat(disp(args[0]), from_nth(disps(args), 1));
                    at_cat(s, p + 1, sbytes(disp(args[0])), sbytes(from_nth(disps(args), 1)));
                    shown(c, s, p + 1, args[0]);
                    args_some(c, s, p + 1);
                }
                assert(arity_ok(f, norms(args).len() as int));
                call_atom(c, s, i, f, norms(args), e);
            }
            _ => {}
        }
    }
    /// a displayed expression begins with a byte that is not whitespace
    proof fn shown(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, t: Tree) requires wf(t), known(c, t), at(s, i, sbytes(disp(t))) ensures ws(s, i) == i, sbytes(disp(t)).len() > 0, i < s.len(), s[i] != 0x29
    {
        match t {
            Tree::Num(v) => {
                vtext_ax(v);
                let w = if neg_sign(v) { vneg(v) } else { v };
                vtext_ax(w);
                let x = vtext(v);
                assert(x[0] == '-' || x[0] == vtext(w)[0]);
                assert forall|k: int| 0 <= k < x.len() implies (x[k] as u32) < 128 by { if k > 0 && neg_sign(v) { assert(x[k] == vtext(w)[k - 1]); } }
                assert(is_ascii_chars(x));
                is_ascii_chars_encode_utf8(x);
                assert(sbytes(x)[0] == s[i + 0]);
            }
            Tree::Var(x) => { assert(sbytes(x)[0] == s[i + 0]); }
            Tree::Un(op, a) => { if op == Operator::Factorial { cut_paren(s, i, as_operand(*a, disp(*a)) + seq!['!']); } else { cut_paren(s, i, seq![op_char(op)] + disp(*a)); } }
            Tree::Bin(op, a, b) => { cut_paren(s, i, (if op == Operator::Power { as_operand(*a, disp(*a)) } else { disp(*a) }) + seq![' '] + seq![op_char(op)] + seq![' '] + disp(*b)); }
            Tree::Call(f, args) => {
                let p = paren(joined(disps(args), seq![',', ' ']));
                encode_utf8_concat(f.name, p);
                at_cat(s, i, sbytes(f.name), sbytes(p));
                assert(sbytes(f.name)[0] == s[i + 0]);
            }
        }
    }
    /// the arguments of t from the n-th on
    proof fn more(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i0: int, i: int, t: Tree, n: int)
        requires t is Call, wf(t), known(c, t), 0 <= n < t->Call_1.len(), 0 <= i0 <= i <= i0 + 1, i0 < i ==> is_at(s, i0, 0x20),
            at(s, i, sbytes(disp(t->Call_1[n]) + from_nth(disps(t->Call_1), n + 1))), is_at(s, i + sbytes(disp(t->Call_1[n]) + from_nth(disps(t->Call_1), n + 1)).len(), 0x29),
        ensures g_more(c, s, i0, norms(t->Call_1).take(n)) == Some((norms(t->Call_1), i + sbytes(disp(t->Call_1[n]) + from_nth(disps(t->Call_1), n + 1)).len()))
        decreases t, 0int, t->Call_1.len() - n
    {
        hide(g_atom); hide(g_element); hide(g_rest); hide(g_more); hide(g_args); hide(g_ident); hide(run); hide(num_end);
        let args = t->Call_1; let ds = disps(args); let acc = norms(args).take(n);
        let d = disp(args[n]); let r = from_nth(ds, n + 1);
        known_arg(c, t, n);
        encode_utf8_concat(d, r);
        at_cat(s, i, sbytes(d), sbytes(r));
        shown(c, s, i, args[n]);
        if i0 < i { ws_one(s, i0); }
        let e = i + sbytes(d).len();
        assert(acc.push(norm(args[n])) =~= norms(args).take(n + 1));
        if n + 1 < args.len() {
            let d2 = disp(args[n + 1]); let r2 = from_nth(ds, n + 2);
            assert(r =~= seq![','] + (seq![' '] + (d2 + r2)));
            cut_first(s, e, ',', seq![' '] + (d2 + r2));
            cut_first(s, e + 1, ' ', d2 + r2);
            element(c, s, i0, i, 0, args[n]);
            more_next(c, s, i0, acc, g_element(c, s, i0, 0)->0);
            more(c, s, e + 1, e + 2, t, n + 1);
        } else {
            none();
            assert(d + r =~= d);
            element(c, s, i0, i, 0, args[n]);
            more_last(c, s, i0, acc, g_element(c, s, i0, 0)->0);
            assert(norms(args).take(n + 1) =~= norms(args));
        }
    }
    /// the text of t denotes t, its negative numbers as signs and numbers
    pub proof fn back(c: Map<Seq<char>, Symbol>, t: Tree) requires wf(t), known(c, t) ensures g_parse(c, sbytes(disp(t))) == Some(norm(t)) {
        let s = sbytes(disp(t));
        assert(at(s, 0, s));
        shown(c, s, 0, t);
        element(c, s, 0, 0, 0, t);
    }
    // ---- reading signs instead of negative numbers changes no meaning
    pub open spec fn no_negatives(t: Tree) -> bool decreases t {
        match t {
            Tree::Num(v) => !neg_sign(v),
            Tree::Var(_) => true,
            Tree::Un(op, a) => no_negatives(*a),
            Tree::Bin(op, a, b) => no_negatives(*a) && no_negatives(*b),
            Tree::Call(f, args) => forall|i: int| 0 <= i < args.len() ==> no_negatives(#[trigger] args[i]),
        }
    }
    proof fn no_negatives_arg(t: Tree, i: int) requires t is Call, no_negatives(t), 0 <= i < t->Call_1.len() ensures no_negatives(t->Call_1[i]) {}
    pub proof fn norm_same(t: Tree) requires no_negatives(t) ensures norm(t) == t decreases t {
        match t {
            Tree::Un(op, a) => { norm_same(*a); }
            Tree::Bin(op, a, b) => { norm_same(*a); norm_same(*b); }
            Tree::Call(f, args) => {
                assert forall|i: int| 0 <= i < args.len() implies #[trigger] norms(args)[i] == args[i] by { no_negatives_arg(t, i); norm_same(args[i]); }
                assert(norms(args) =~= args);
            }
            _ => {}
        }
    }
    proof fn tidy_of(c: Map<Seq<char>, Symbol>, t: Tree) requires known(c, t) ensures tidy(t) decreases t {
        match t {
            Tree::Un(op, a) => { tidy_of(c, *a); }
            Tree::Bin(op, a, b) => { tidy_of(c, *a); tidy_of(c, *b); }
            Tree::Call(f, args) => {
                assert forall|i: int| 0 <= i < args.len() implies tidy(#[trigger] args[i]) by { known_arg1(c, t, i); tidy_of(c, args[i]); }
            }
            _ => {}
        }
    }
    proof fn known_arg1(c: Map<Seq<char>, Symbol>, t: Tree, i: int) requires t is Call, known(c, t), 0 <= i < t->Call_1.len() ensures known(c, t->Call_1[i]) {}
    proof fn closed_call(f: FunV, args: Seq<Tree>) ensures closed(Tree::Call(f, args)) == (forall|i: int| 0 <= i < args.len() ==> closed(#[trigger] args[i])) {
        let t = Tree::Call(f, args);
        if closed(t) { assert forall|i: int| 0 <= i < args.len() implies closed(#[trigger] args[i]) by { closed_1(t, i); } }
        if forall|i: int| 0 <= i < args.len() ==> closed(#[trigger] args[i]) { closed_2(t); }
    }
    proof fn closed_1(t: Tree, i: int) requires t is Call, closed(t), 0 <= i < t->Call_1.len() ensures closed(t->Call_1[i]) {}
    proof fn closed_2(t: Tree) requires t is Call, forall|i: int| 0 <= i < t->Call_1.len() ==> closed(#[trigger] t->Call_1[i]) ensures closed(t) {}
    proof fn good_call(t: Tree, env: Env) requires t is Call ensures good(t, env, false) == (closed(t) || (insensitive(t->Call_0.fid) && !is_nan(fcall(t->Call_0.fid, dens(t->Call_1, env)))
        && (forall|i: int| 0 <= i < t->Call_1.len() ==> good(#[trigger] t->Call_1[i], env, false)))) {}
    proof fn neg_means(v: V) requires finite(v), finite(vneg(v)), vneg(vneg(v)) == v ensures ({ let u = un(Operator::Minus, Tree::Num(vneg(v)));
        wf(u) && closed(u) && (forall|x: Seq<char>| !#[trigger] occurs(u, x)) && (forall|env: Env| #[trigger] den(u, env) == v) && (forall|env: Env| #[trigger] good(u, env, false)) })
    {
        broadcast use {tree_facts::occ, ax_ieee::finite_ax};
        reveal_with_fuel(wf, 2); reveal_with_fuel(closed, 2); reveal_with_fuel(den, 2); reveal_with_fuel(good, 2);
        let u = un(Operator::Minus, Tree::Num(vneg(v)));
        assert forall|x: Seq<char>| !#[trigger] occurs(u, x) by { tree_facts::occ_un(Operator::Minus, Box::new(Tree::Num(vneg(v))), x); tree_facts::occ_num(vneg(v), x); }
    }
    /// same values, same variables, as well-behaved as before
    pub proof fn norm_means(c: Map<Seq<char>, Symbol>, t: Tree) requires wf(t), known(c, t)
        ensures wf(norm(t)), closed(norm(t)) == closed(t), forall|x: Seq<char>| #[trigger] occurs(norm(t), x) == occurs(t, x),
            forall|env: Env| #[trigger] den(norm(t), env) == den(t, env),
            forall|env: Env| good(t, env, false) ==> #[trigger] good(norm(t), env, false),
        decreases t
    {
        broadcast use {tree_facts::occ, tree_facts::seqs, ax_ieee::finite_ax};
        match t {
            Tree::Num(v) => { vtext_ax(v); if neg_sign(v) { vtext_ax(vneg(v)); neg_means(v); } }
            Tree::Var(x) => {}
            Tree::Un(op, a) => {
                norm_means(c, *a);
                assert forall|env: Env| #[trigger] den(norm(t), env) == den(t, env) by { assert(den(norm(*a), env) == den(*a, env)); }
                assert forall|env: Env| good(t, env, false) implies #[trigger] good(norm(t), env, false) by { assert(den(norm(*a), env) == den(*a, env)); assert(good(*a, env, false) ==> good(norm(*a), env, false)); }
            }
            Tree::Bin(op, a, b) => {
                norm_means(c, *a); norm_means(c, *b);
                assert forall|env: Env| #[trigger] den(norm(t), env) == den(t, env) by { assert(den(norm(*a), env) == den(*a, env)); assert(den(norm(*b), env) == den(*b, env)); }
                assert forall|env: Env| good(t, env, false) implies #[trigger] good(norm(t), env, false) by {
                    assert(den(norm(*a), env) == den(*a, env)); assert(good(*a, env, false) ==> good(norm(*a), env, false));
                    assert(den(norm(*b), env) == den(*b, env)); assert(good(*b, env, false) ==> good(norm(*b), env, false));
                }
            }
            Tree::Call(f, args) => {
                let n = norms(args);
                tree_facts::wf_call(f, args);
                assert forall|i: int| 0 <= i < args.len() implies wf(#[trigger] n[i]) && closed(n[i]) == closed(args[i])
                    && (forall|x: Seq<char>| #[trigger] occurs(n[i], x) == occurs(args[i], x))
                    && (forall|env: Env| #[trigger] den(n[i], env) == den(args[i], env))
                    && (forall|env: Env| good(args[i], env, false) ==> #[trigger] good(n[i], env, false)) by { known_arg(c, t, i); norm_means(c, args[i]); }
                tree_facts::wf_call(f, n);
                closed_call(f, args); closed_call(f, n);
                assert forall|i: int| 0 <= i < args.len() implies closed(#[trigger] args[i]) == closed(n[i]) by { assert(wf(n[i])); }
                if closed(t) { assert forall|i: int| 0 <= i < n.len() implies closed(#[trigger] n[i]) by { assert(closed(args[i])); } }
                if closed(norm(t)) { assert forall|i: int| 0 <= i < args.len() implies closed(#[trigger] args[i]) by { assert(closed(n[i])); } }
                assert forall|x: Seq<char>| #[trigger] occurs(norm(t), x) == occurs(t, x) by {
                    tree_facts::occ_call(f, args, x); tree_facts::occ_call(f, n, x);
                    if occurs(t, x) { let i = choose|i: int| 0 <= i < args.len() && occurs(#[trigger] args[i], x); assert(occurs(n[i], x)); }
                    if occurs(norm(t), x) { let i = choose|i: int| 0 <= i < n.len() && occurs(#[trigger] n[i], x); assert(occurs(args[i], x)); }
                }
                assert forall|env: Env| #[trigger] den(norm(t), env) == den(t, env) by {
                    assert forall|i: int| 0 <= i < args.len() implies #[trigger] dens(n, env)[i] == dens(args, env)[i] by { assert(den(n[i], env) == den(args[i], env)); }
                    assert(dens(n, env) =~= dens(args, env));
                }
                assert forall|env: Env| good(t, env, false) implies #[trigger] good(norm(t), env, false) by {
                    good_call(t, env); good_call(norm(t), env);
                    assert(den(norm(t), env) == den(t, env));
                    assert forall|i: int| 0 <= i < args.len() implies #[trigger] dens(n, env)[i] == dens(args, env)[i] by { assert(den(n[i], env) == den(args[i], env)); }
                    assert(dens(n, env) =~= dens(args, env));
                    if !closed(t) { assert forall|i: int| 0 <= i < n.len() implies good(#[trigger] n[i], env, false) by { assert(good(args[i], env, false)); } }
                }
            }
        }
    }
    // ---- the variables of a text's tree are names, and variables in the context it was parsed in
    pub open spec fn var_names(c: Map<Seq<char>, Symbol>, t: Tree) -> bool { forall|x: Seq<char>| #[trigger] occurs(t, x) ==> ident(x) && resolve(c, x) == Meaning::Var }
    proof fn name_ident(s: Seq<u8>, k: int) requires 0 <= k < s.len(), is_letter(s[k]) ensures ident(txt(s, k, run(s, k, Cls::Id))) {
        let j = run(s, k, Cls::Id);
        text_facts::run_ge(s, k, Cls::Id); text_facts::run_ge(s, k + 1, Cls::Id);
        text_facts::run_text(s, k, Cls::Id, j);
        let b = s.subrange(k, j);
        decode_utf8_encode_utf8(b);
        assert(sbytes(txt(s, k, j)) == b);
        assert forall|i: int| 0 <= i < b.len() implies in_cls(Cls::Id, #[trigger] b[i]) by { text_facts::run_in(s, k, Cls::Id, k + i); assert(b[i] == s[k + i]); }
    }
    proof fn un_names(c: Map<Seq<char>, Symbol>, op: Operator, t: Tree) requires var_names(c, t) ensures var_names(c, un(op, t)) {
        broadcast use tree_facts::occ;
        assert forall|x: Seq<char>| #[trigger] occurs(un(op, t), x) implies ident(x) && resolve(c, x) == Meaning::Var by { assert(occurs(t, x)); }
    }
    proof fn bin_names(c: Map<Seq<char>, Symbol>, op: Operator, t: Tree, u: Tree) requires var_names(c, t), var_names(c, u) ensures var_names(c, bin(op, t, u)) {
        broadcast use tree_facts::occ;
        assert forall|x: Seq<char>| #[trigger] occurs(bin(op, t, u), x) implies ident(x) && resolve(c, x) == Meaning::Var by { assert(occurs(t, x) || occurs(u, x)); }
    }
    pub open spec fn all_names(c: Map<Seq<char>, Symbol>, a: Seq<Tree>) -> bool { forall|i: int| 0 <= i < a.len() ==> var_names(c, #[trigger] a[i]) }
    proof fn call_names(c: Map<Seq<char>, Symbol>, f: FunV, a: Seq<Tree>) requires all_names(c, a) ensures var_names(c, Tree::Call(f, a)) {
        assert forall|x: Seq<char>| #[trigger] occurs(Tree::Call(f, a), x) implies ident(x) && resolve(c, x) == Meaning::Var by {
            tree_facts::occ_call(f, a, x);
            let i = choose|i: int| 0 <= i < a.len() && occurs(#[trigger] a[i], x); assert(var_names(c, a[i]));
        }
    }
    proof fn banged_names(c: Map<Seq<char>, Symbol>, s: Seq<u8>, t: Tree, e: int, num: bool) requires var_names(c, t) ensures var_names(c, banged(s, t, e, num).t) { un_names(c, Operator::Factorial, t); }
    proof fn ident_names(c: Map<Seq<char>, Symbol>, s: Seq<u8>, k: int) requires 0 <= k < s.len(), is_letter(s[k]), g_ident(c, s, k) is Some ensures var_names(c, (g_ident(c, s, k)->0).0) decreases s.len() - k, 0int {
        broadcast use tree_facts::occ;
        let j = run(s, k, Cls::Id);
        name_ident(s, k);
        text_facts::run_ge(s, j, Cls::Ws);
        match resolve(c, txt(s, k, j)) {
            Meaning::Fun(f) => { let p = ws(s, j); args_names(c, s, p + 1); call_names(c, f, (g_args(c, s, p + 1)->0).0); }
            _ => {}
        }
    }
    proof fn atom_names(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int) requires 0 <= i, g_atom(c, s, i) is Some ensures var_names(c, (g_atom(c, s, i)->0).t) decreases s.len() - i, 1int {
        broadcast use tree_facts::occ;
        let k = ws(s, i);
        if is_digit(s[k]) || s[k] == 0x2e { let v = num_value(s, k)->0; assert(var_names(c, Tree::Num(v))); banged_names(c, s, Tree::Num(v), num_end(s, k), true); }
        else if is_letter(s[k]) { ident_names(c, s, k); let r = g_ident(c, s, k)->0; banged_names(c, s, r.0, r.1, false); }
        else if s[k] == 0x2b || s[k] == 0x2d { element_names(c, s, k + 1, sign_tightness()); un_names(c, if s[k] == 0x2b { Operator::Plus } else { Operator::Minus }, (g_element(c, s, k + 1, sign_tightness())->0).t); }
        else { element_names(c, s, k + 1, 0); let st = g_element(c, s, k + 1, 0)->0; banged_names(c, s, st.t, st.p + 1, false); }
    }
    proof fn element_names(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, m: int) requires 0 <= i, g_element(c, s, i, m) is Some ensures var_names(c, (g_element(c, s, i, m)->0).t) decreases s.len() - i, 2int {
        atom_names(c, s, i);
        rest_names(c, s, m, g_atom(c, s, i)->0);
    }
    proof fn rest_names(c: Map<Seq<char>, Symbol>, s: Seq<u8>, m: int, st: St) requires 0 <= st.p, var_names(c, st.t), g_rest(c, s, m, st) is Some ensures var_names(c, (g_rest(c, s, m, st)->0).t) decreases s.len() - st.p, 3int {
        match next_op(s, st.p, m, st.num) {
            None => {}
            Some((op, q, p)) => {
                element_names(c, s, p, q);
                let r = g_element(c, s, p, q)->0;
                bin_names(c, op, st.t, r.t);
                rest_names(c, s, m, St { t: bin(op, st.t, r.t), p: r.p, num: r.num });
            }
        }
    }
    proof fn args_names(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int) requires 0 <= i, g_args(c, s, i) is Some ensures all_names(c, (g_args(c, s, i)->0).0) decreases s.len() - i, 5int {
        let k = ws(s, i);
        if !is_at(s, k, 0x29) { more_names(c, s, k, Seq::empty()); }
    }
    proof fn more_names(c: Map<Seq<char>, Symbol>, s: Seq<u8>, i: int, a: Seq<Tree>) requires 0 <= i, all_names(c, a), g_more(c, s, i, a) is Some ensures all_names(c, (g_more(c, s, i, a)->0).0) decreases s.len() - i, 4int {
        element_names(c, s, i, 0);
        let st = g_element(c, s, i, 0)->0;
        assert(all_names(c, a.push(st.t)));
        if is_at(s, st.p, 0x2c) && i <= st.p { more_names(c, s, st.p + 1, a.push(st.t)); }
    }
    pub proof fn parsed_names(c: Map<Seq<char>, Symbol>, s: Seq<u8>) requires g_parse(c, s) is Some ensures var_names(c, g_parse(c, s)->0) { element_names(c, s, 0, 0); }
}
/// every function of t is what its own name denotes in c
pub open spec fn calls_known(c: Map<Seq<char>, Symbol>, t: Tree) -> bool decreases t {
    match t {
        Tree::Num(_) | Tree::Var(_) => true,
        Tree::Un(op, a) => calls_known(c, *a),
        Tree::Bin(op, a, b) => calls_known(c, *a) && calls_known(c, *b),
        Tree::Call(f, args) => ident(f.name) && resolve(c, f.name) == Meaning::Fun(f) && forall|i: int| 0 <= i < args.len() ==> calls_known(c, #[trigger] args[i]),
    }
}
/// no variable of t is a symbol of c
pub open spec fn apart(c: Map<Seq<char>, Symbol>, t: Tree) -> bool { forall|x: Seq<char>| #[trigger] occurs(t, x) ==> !c.dom().contains(x) }
/// u may be displayed after t: the same variables or fewer, an equal value wherever t evaluates well
pub open spec fn same_meaning(t: Tree, u: Tree) -> bool { r_occ(t, u) && r_good(t, u) }
/// C14: what the display functions and the parser do, one after the other
pub mod round_trip {
    use super::*;
    // x: any expression parsing or simplifying gave (parsed_vars, simplified_vars)
    /// the variables of an expression that parsing or simplifying gave
    pub proof fn parsed_vars(c: Map<Seq<char>, Symbol>, s: Seq<u8>, t: Tree, u: Tree) requires g_parse(c, s) == Some(t), made(t, u) ensures reread::var_names(c, u) {
        reread::parsed_names(c, s);
        assert(r_occ(t, u)) by { reveal(refines); }
        assert forall|x: Seq<char>| #[trigger] occurs(u, x) implies ident(x) && resolve(c, x) == Meaning::Var by { assert(occurs(t, x)); }
    }
    pub proof fn simplified_vars(c: Map<Seq<char>, Symbol>, t: Tree, vs: Seq<(Seq<char>, V)>, u: Tree) requires reread::var_names(c, t), fixes(t, vs, u) ensures reread::var_names(c, u) {
        reveal(fixes);
        assert forall|x: Seq<char>| #[trigger] occurs(u, x) implies ident(x) && resolve(c, x) == Meaning::Var by { assert(occurs(t, x)); }
    }
    pub proof fn all_known(c0: Map<Seq<char>, Symbol>, c: Map<Seq<char>, Symbol>, t: Tree)
        requires tidy(t), reread::var_names(c0, t), calls_known(c, t), apart(c, t) ensures known(c, t) decreases t
    {
        broadcast use tree_facts::occ;
        match t {
            Tree::Num(_) => {}
            Tree::Var(x) => { assert(occurs(t, x)); }
            Tree::Un(op, a) => { sub(c0, c, t, *a); all_known(c0, c, *a); }
            Tree::Bin(op, a, b) => { sub(c0, c, t, *a); sub(c0, c, t, *b); all_known(c0, c, *a); all_known(c0, c, *b); }
            Tree::Call(f, args) => {
                assert forall|i: int| 0 <= i < args.len() implies known(c, #[trigger] args[i]) by { arg(c, t, i); sub(c0, c, t, args[i]); all_known(c0, c, args[i]); }
            }
        }
    }
    proof fn arg(c: Map<Seq<char>, Symbol>, t: Tree, i: int) requires t is Call, tidy(t), calls_known(c, t), 0 <= i < t->Call_1.len()
        ensures tidy(t->Call_1[i]), calls_known(c, t->Call_1[i]), forall|x: Seq<char>| occurs(t->Call_1[i], x) ==> #[trigger] occurs(t, x) {}
    proof fn sub(c0: Map<Seq<char>, Symbol>, c: Map<Seq<char>, Symbol>, t: Tree, a: Tree)
        requires reread::var_names(c0, t), apart(c, t), forall|x: Seq<char>| occurs(a, x) ==> #[trigger] occurs(t, x) ensures reread::var_names(c0, a), apart(c, a)
    {
        assert forall|x: Seq<char>| #[trigger] occurs(a, x) implies ident(x) && resolve(c0, x) == Meaning::Var && !c.dom().contains(x) by { assert(occurs(t, x)); }
    }
    /// the text that displaying x gives
    pub fn show(x: &Xprs) -> (r: String) requires tidy(x.root.tree()) ensures r@ == disp(x.root.tree()) {
        let mut s = xstring_new();
        let mut f = Formatter::over(&mut s);
        let e = x.xfmt(&mut f);
        f.done(&mut s);
        proof { assert(s@ =~= disp(x.root.tree())); }
        s
    }
    /// that text, parsed with p
    pub fn again<'t>(x: &Xprs, c0: Ghost<Map<Seq<char>, Symbol>>, text: &'t String, p: &Parser) -> (r: Result<Xprs<'t>, ParseError>)
        requires
            wf(x.root.tree()), tidy(x.root.tree()), reread::var_names(c0@, x.root.tree()), calls_known(p.ctx.symbols@, x.root.tree()), apart(p.ctx.symbols@, x.root.tree()),
            ctx_ok(p.ctx.symbols@), p.ctx.expected_vars is None, text@ == disp(x.root.tree()),
        ensures
            r is Ok, same_meaning(x.root.tree(), (r->Ok_0).root.tree()), vars_exact(r->Ok_0),
#if !OPT
            reread::no_negatives(x.root.tree()) ==> disp((r->Ok_0).root.tree()) == text@,
#endif
    {
        let r = p.parse(text.as_str());
        proof {
            let t = x.root.tree(); let c = p.ctx.symbols@;
            all_known(c0@, c, t);
            reread::back(c, t);
            reread::norm_means(c, t);
            let n = norm(t);
            let u = (r->Ok_0).root.tree();
            assert(made(n, u));
            reveal(refines);
#if OPT
            assert(r_occ(n, u) && r_good(n, u));
#else
            assert(n == u);
            if reread::no_negatives(t) { reread::norm_same(t); }
#endif
            assert forall|x: Seq<char>| #[trigger] occurs(u, x) implies occurs(t, x) by { assert(occurs(n, x) == occurs(t, x)); }
            assert forall|env: Env| #[trigger] good(t, env, false) implies good(u, env, false) && zeq(den(t, env), den(u, env)) by { assert(good(n, env, false)); assert(den(n, env) == den(t, env)); }
        }
        r
    }
}
/// every built-in function is what its own name denotes, in every context that does not define that name
pub mod own_names {
    use super::*;
    use vstd::utf8::*;
    pub open spec fn word_char(c: char) -> bool { 'a' <= c <= 'z' || '0' <= c <= '9' }
    pub open spec fn word(x: Seq<char>) -> bool { x.len() > 0 && 'a' <= x[0] <= 'z' && forall|k: int| 0 <= k < x.len() ==> word_char(#[trigger] x[k]) }
    proof fn word_ident(x: Seq<char>) requires word(x) ensures ident(x) {
        assert forall|k: int| 0 <= k < x.len() implies (#[trigger] x[k] as u32) < 128 by { assert(word_char(x[k])); }
        assert(is_ascii_chars(x));
        is_ascii_chars_encode_utf8(x);
        assert forall|k: int| 0 <= k < sbytes(x).len() implies in_cls(Cls::Id, #[trigger] sbytes(x)[k]) by { assert(word_char(x[k])); assert(sbytes(x)[k] == x[k] as u8); }
        assert(sbytes(x)[0] == x[0] as u8);
    }
    proof fn words() ensures forall|n: Seq<char>| #[trigger] is_builtin_fun(n) ==> word(n) { name_chars(); }
    pub proof fn builtin_own(c: Map<Seq<char>, Symbol>, n: Seq<char>, f: FunV) requires builtin_is(n, f), is_builtin_fun(n), !c.dom().contains(f.name) ensures ident(f.name), resolve(c, f.name) == Meaning::Fun(f) {
        reveal(builtin_is); reveal(builtin);
        assert(f.name == (if n == "invert"@ { "recip"@ } else { n }) && f == bfun(f.name) && is_builtin_fun(f.name) && f.name != "invert"@) by { name_chars(); }
        assert(f.name != "pi"@ && f.name != "e"@) by { name_chars(); words(); }
        words();
        word_ident(f.name);
    }
}
