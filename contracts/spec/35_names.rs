// ===== built-in names =====
/// what a name denotes
pub enum Meaning { Con(V), Fun(FunV), Var }
/// the function a built-in's const denotes: one function per const item
pub uninterp spec fn bfun(name: Seq<char>) -> FunV;
pub open spec fn vsum(a: Seq<V>) -> V { vfold(|x: V, y: V| vadd(x, y), VSUM0(), a) }
pub open spec fn vleast(a: Seq<V>) -> V { vfold(|x: V, y: V| vmin(x, y), VINF(), a) }
pub open spec fn vgreatest(a: Seq<V>) -> V { vfold(|x: V, y: V| vmax(x, y), VNINF(), a) }
pub open spec fn means1(fid: int, m: spec_fn(V) -> V) -> bool { forall|s: &[f64]| s@.len() == 1 ==> #[trigger] fcall(fid, fvs(s@)) == m(fv(s@[0])) }
pub open spec fn means2(fid: int, m: spec_fn(V, V) -> V) -> bool { forall|s: &[f64]| s@.len() == 2 ==> #[trigger] fcall(fid, fvs(s@)) == m(fv(s@[0]), fv(s@[1])) }
pub open spec fn meansn(fid: int, m: spec_fn(Seq<V>) -> V) -> bool { forall|s: &[f64]| #[trigger] fcall(fid, fvs(s@)) == m(fvs(s@)) }
pub open spec fn fun1(f: FunV, name: Seq<char>, m: spec_fn(V) -> V) -> bool { f == bfun(name) && f.name == name && f.arity == Some(1u8) && fun_ok(f) && means1(f.fid, m) }
pub open spec fn fun2(f: FunV, name: Seq<char>, m: spec_fn(V, V) -> V) -> bool { f == bfun(name) && f.name == name && f.arity == Some(2u8) && fun_ok(f) && means2(f.fid, m) }
pub open spec fn funn(f: FunV, name: Seq<char>, m: spec_fn(Seq<V>) -> V) -> bool { f == bfun(name) && f.name == name && f.arity is None && fun_ok(f) && meansn(f.fid, m) }
pub proof fn fun1_of<F: Fn(&[f64]) -> f64>(f: F, fid: int, m: spec_fn(V) -> V)
    requires fn_meaning(f, fid), forall|n: int| #[trigger] fn_callable(f, n) ==> callable(fid, n),
        forall|s: &[f64]| s@.len() == 1 ==> #[trigger] call_requires(f, (s,)),
        forall|s: &[f64], o: f64| s@.len() == 1 && #[trigger] call_ensures(f, (s,), o) ==> fv(o) == m(fv(s@[0])),
    ensures callable(fid, 1), means1(fid, m)
{
    assert(fn_callable(f, 1));
    assert forall|s: &[f64]| s@.len() == 1 implies #[trigger] fcall(fid, fvs(s@)) == m(fv(s@[0])) by { assert(call_requires(f, (s,))); }
}
pub proof fn fun2_of<F: Fn(&[f64]) -> f64>(f: F, fid: int, m: spec_fn(V, V) -> V)
    requires fn_meaning(f, fid), forall|n: int| #[trigger] fn_callable(f, n) ==> callable(fid, n),
        forall|s: &[f64]| s@.len() == 2 ==> #[trigger] call_requires(f, (s,)),
        forall|s: &[f64], o: f64| s@.len() == 2 && #[trigger] call_ensures(f, (s,), o) ==> fv(o) == m(fv(s@[0]), fv(s@[1])),
    ensures callable(fid, 2), means2(fid, m)
{
    assert(fn_callable(f, 2));
    assert forall|s: &[f64]| s@.len() == 2 implies #[trigger] fcall(fid, fvs(s@)) == m(fv(s@[0]), fv(s@[1])) by { assert(call_requires(f, (s,))); }
}
pub proof fn funn_of<F: Fn(&[f64]) -> f64>(f: F, fid: int, m: spec_fn(Seq<V>) -> V)
    requires fn_meaning(f, fid), forall|n: int| #[trigger] fn_callable(f, n) ==> callable(fid, n),
        forall|s: &[f64]| #[trigger] call_requires(f, (s,)),
        forall|s: &[f64], o: f64| #[trigger] call_ensures(f, (s,), o) ==> fv(o) == m(fvs(s@)),
    ensures forall|n: int| n >= 0 ==> #[trigger] callable(fid, n), meansn(fid, m)
{
    assert forall|n: int| n >= 0 implies #[trigger] callable(fid, n) by { assert(fn_callable(f, n)); }
    assert forall|s: &[f64]| #[trigger] fcall(fid, fvs(s@)) == m(fvs(s@)) by { assert(call_requires(f, (s,))); }
}
/// the documented meaning of each built-in function name
#[verifier::opaque]
pub open spec fn builtin_is(n: Seq<char>, f: FunV) -> bool {
    if n == "sin"@ { fun1(f, "sin"@, |a: V| vsin(a)) }
    else if n == "sinh"@ { fun1(f, "sinh"@, |a: V| vsinh(a)) }
    else if n == "asin"@ { fun1(f, "asin"@, |a: V| vasin(a)) }
    else if n == "asinh"@ { fun1(f, "asinh"@, |a: V| vasinh(a)) }
    else if n == "cos"@ { fun1(f, "cos"@, |a: V| vcos(a)) }
    else if n == "cosh"@ { fun1(f, "cosh"@, |a: V| vcosh(a)) }
    else if n == "acos"@ { fun1(f, "acos"@, |a: V| vacos(a)) }
    else if n == "acosh"@ { fun1(f, "acosh"@, |a: V| vacosh(a)) }
    else if n == "tan"@ { fun1(f, "tan"@, |a: V| vtan(a)) }
    else if n == "tanh"@ { fun1(f, "tanh"@, |a: V| vtanh(a)) }
    else if n == "atan"@ { fun1(f, "atan"@, |a: V| vatan(a)) }
    else if n == "atanh"@ { fun1(f, "atanh"@, |a: V| vatanh(a)) }
    else if n == "ln"@ { fun1(f, "ln"@, |a: V| vln(a)) }
    else if n == "log"@ { fun1(f, "log"@, |a: V| vlog10(a)) }
    else if n == "sqrt"@ { fun1(f, "sqrt"@, |a: V| vsqrt(a)) }
    else if n == "cbrt"@ { fun1(f, "cbrt"@, |a: V| vcbrt(a)) }
    else if n == "exp"@ { fun1(f, "exp"@, |a: V| vexp(a)) }
    else if n == "abs"@ { fun1(f, "abs"@, |a: V| vabs(a)) }
    else if n == "floor"@ { fun1(f, "floor"@, |a: V| vfloor(a)) }
    else if n == "ceil"@ { fun1(f, "ceil"@, |a: V| vceil(a)) }
    else if n == "round"@ { fun1(f, "round"@, |a: V| vround(a)) }
    else if n == "trunc"@ { fun1(f, "trunc"@, |a: V| vtrunc(a)) }
    else if n == "recip"@ { fun1(f, "recip"@, |a: V| vrecip(a)) }
    else if n == "invert"@ { fun1(f, "recip"@, |a: V| vrecip(a)) }
    else if n == "fract"@ { fun1(f, "fract"@, |a: V| vfract(a)) }
    else if n == "gamma"@ { fun1(f, "gamma"@, |a: V| vgamma(a)) }
    else if n == "factorial"@ { fun1(f, "factorial"@, |a: V| vfact(a)) }
    else if n == "atan2"@ { fun2(f, "atan2"@, |a: V, b: V| vatan2(a, b)) }
    else if n == "logn"@ { fun2(f, "logn"@, |a: V, b: V| vlog(a, b)) }
    else if n == "hypot"@ { fun2(f, "hypot"@, |a: V, b: V| vhypot(a, b)) }
    else if n == "sum"@ { funn(f, "sum"@, |a: Seq<V>| vsum(a)) }
    else if n == "mean"@ { funn(f, "mean"@, |a: Seq<V>| vdiv(vsum(a), vlen(a.len() as int))) }
    else if n == "min"@ { funn(f, "min"@, |a: Seq<V>| vleast(a)) }
    else if n == "max"@ { funn(f, "max"@, |a: Seq<V>| vgreatest(a)) }
    else { false }
}
pub open spec fn is_builtin_fun(n: Seq<char>) -> bool {
    n == "sin"@
    || n == "sinh"@
    || n == "asin"@
    || n == "asinh"@
    || n == "cos"@
    || n == "cosh"@
    || n == "acos"@
    || n == "acosh"@
    || n == "tan"@
    || n == "tanh"@
    || n == "atan"@
    || n == "atanh"@
    || n == "ln"@
    || n == "log"@
    || n == "sqrt"@
    || n == "cbrt"@
    || n == "exp"@
    || n == "abs"@
    || n == "floor"@
    || n == "ceil"@
    || n == "round"@
    || n == "trunc"@
    || n == "recip"@
    || n == "fract"@
    || n == "gamma"@
    || n == "factorial"@
    || n == "invert"@
    || n == "atan2"@
    || n == "logn"@
    || n == "hypot"@
    || n == "sum"@
    || n == "mean"@
    || n == "min"@
    || n == "max"@
}
#[verifier::opaque]
pub open spec fn builtin(n: Seq<char>) -> Meaning {
    if n == "pi"@ { Meaning::Con(VPI()) } else if n == "e"@ { Meaning::Con(VE()) }
    else if is_builtin_fun(n) { Meaning::Fun(bfun(if n == "invert"@ { "recip"@ } else { n })) }
    else { Meaning::Var }
}
pub open spec fn ident_means(i: Identifier, m: Meaning) -> bool {
    match i { Identifier::Constant(x) => m == Meaning::Con(fv(x)), Identifier::Function(f) => m == Meaning::Fun(f@), Identifier::Variable(_) => m is Var }
}
pub proof fn name_chars()
    ensures
        "abs"@.len() == 3, "abs"@[0] == 'a', "abs"@[1] == 'b', "abs"@[2] == 's',
        "acos"@.len() == 4, "acos"@[0] == 'a', "acos"@[1] == 'c', "acos"@[2] == 'o', "acos"@[3] == 's',
        "acosh"@.len() == 5, "acosh"@[0] == 'a', "acosh"@[1] == 'c', "acosh"@[2] == 'o', "acosh"@[3] == 's', "acosh"@[4] == 'h',
        "asin"@.len() == 4, "asin"@[0] == 'a', "asin"@[1] == 's', "asin"@[2] == 'i', "asin"@[3] == 'n',
        "asinh"@.len() == 5, "asinh"@[0] == 'a', "asinh"@[1] == 's', "asinh"@[2] == 'i', "asinh"@[3] == 'n', "asinh"@[4] == 'h',
        "atan"@.len() == 4, "atan"@[0] == 'a', "atan"@[1] == 't', "atan"@[2] == 'a', "atan"@[3] == 'n',
        "atan2"@.len() == 5, "atan2"@[0] == 'a', "atan2"@[1] == 't', "atan2"@[2] == 'a', "atan2"@[3] == 'n', "atan2"@[4] == '2',
        "atanh"@.len() == 5, "atanh"@[0] == 'a', "atanh"@[1] == 't', "atanh"@[2] == 'a', "atanh"@[3] == 'n', "atanh"@[4] == 'h',
        "cbrt"@.len() == 4, "cbrt"@[0] == 'c', "cbrt"@[1] == 'b', "cbrt"@[2] == 'r', "cbrt"@[3] == 't',
        "ceil"@.len() == 4, "ceil"@[0] == 'c', "ceil"@[1] == 'e', "ceil"@[2] == 'i', "ceil"@[3] == 'l',
        "cos"@.len() == 3, "cos"@[0] == 'c', "cos"@[1] == 'o', "cos"@[2] == 's',
        "cosh"@.len() == 4, "cosh"@[0] == 'c', "cosh"@[1] == 'o', "cosh"@[2] == 's', "cosh"@[3] == 'h',
        "e"@.len() == 1, "e"@[0] == 'e',
        "exp"@.len() == 3, "exp"@[0] == 'e', "exp"@[1] == 'x', "exp"@[2] == 'p',
        "factorial"@.len() == 9, "factorial"@[0] == 'f', "factorial"@[1] == 'a', "factorial"@[2] == 'c', "factorial"@[3] == 't', "factorial"@[4] == 'o', "factorial"@[5] == 'r', "factorial"@[6] == 'i', "factorial"@[7] == 'a', "factorial"@[8] == 'l',
        "floor"@.len() == 5, "floor"@[0] == 'f', "floor"@[1] == 'l', "floor"@[2] == 'o', "floor"@[3] == 'o', "floor"@[4] == 'r',
        "fract"@.len() == 5, "fract"@[0] == 'f', "fract"@[1] == 'r', "fract"@[2] == 'a', "fract"@[3] == 'c', "fract"@[4] == 't',
        "gamma"@.len() == 5, "gamma"@[0] == 'g', "gamma"@[1] == 'a', "gamma"@[2] == 'm', "gamma"@[3] == 'm', "gamma"@[4] == 'a',
        "hypot"@.len() == 5, "hypot"@[0] == 'h', "hypot"@[1] == 'y', "hypot"@[2] == 'p', "hypot"@[3] == 'o', "hypot"@[4] == 't',
        "invert"@.len() == 6, "invert"@[0] == 'i', "invert"@[1] == 'n', "invert"@[2] == 'v', "invert"@[3] == 'e', "invert"@[4] == 'r', "invert"@[5] == 't',
        "ln"@.len() == 2, "ln"@[0] == 'l', "ln"@[1] == 'n',
        "log"@.len() == 3, "log"@[0] == 'l', "log"@[1] == 'o', "log"@[2] == 'g',
        "logn"@.len() == 4, "logn"@[0] == 'l', "logn"@[1] == 'o', "logn"@[2] == 'g', "logn"@[3] == 'n',
        "max"@.len() == 3, "max"@[0] == 'm', "max"@[1] == 'a', "max"@[2] == 'x',
        "mean"@.len() == 4, "mean"@[0] == 'm', "mean"@[1] == 'e', "mean"@[2] == 'a', "mean"@[3] == 'n',
        "min"@.len() == 3, "min"@[0] == 'm', "min"@[1] == 'i', "min"@[2] == 'n',
        "pi"@.len() == 2, "pi"@[0] == 'p', "pi"@[1] == 'i',
        "recip"@.len() == 5, "recip"@[0] == 'r', "recip"@[1] == 'e', "recip"@[2] == 'c', "recip"@[3] == 'i', "recip"@[4] == 'p',
        "round"@.len() == 5, "round"@[0] == 'r', "round"@[1] == 'o', "round"@[2] == 'u', "round"@[3] == 'n', "round"@[4] == 'd',
        "sin"@.len() == 3, "sin"@[0] == 's', "sin"@[1] == 'i', "sin"@[2] == 'n',
        "sinh"@.len() == 4, "sinh"@[0] == 's', "sinh"@[1] == 'i', "sinh"@[2] == 'n', "sinh"@[3] == 'h',
        "sqrt"@.len() == 4, "sqrt"@[0] == 's', "sqrt"@[1] == 'q', "sqrt"@[2] == 'r', "sqrt"@[3] == 't',
        "sum"@.len() == 3, "sum"@[0] == 's', "sum"@[1] == 'u', "sum"@[2] == 'm',
        "tan"@.len() == 3, "tan"@[0] == 't', "tan"@[1] == 'a', "tan"@[2] == 'n',
        "tanh"@.len() == 4, "tanh"@[0] == 't', "tanh"@[1] == 'a', "tanh"@[2] == 'n', "tanh"@[3] == 'h',
        "trunc"@.len() == 5, "trunc"@[0] == 't', "trunc"@[1] == 'r', "trunc"@[2] == 'u', "trunc"@[3] == 'n', "trunc"@[4] == 'c',
{ reveal_strlit("abs"); reveal_strlit("acos"); reveal_strlit("acosh"); reveal_strlit("asin"); reveal_strlit("asinh"); reveal_strlit("atan"); reveal_strlit("atan2"); reveal_strlit("atanh"); reveal_strlit("cbrt"); reveal_strlit("ceil"); reveal_strlit("cos"); reveal_strlit("cosh"); reveal_strlit("e"); reveal_strlit("exp"); reveal_strlit("factorial"); reveal_strlit("floor"); reveal_strlit("fract"); reveal_strlit("gamma"); reveal_strlit("hypot"); reveal_strlit("invert"); reveal_strlit("ln"); reveal_strlit("log"); reveal_strlit("logn"); reveal_strlit("max"); reveal_strlit("mean"); reveal_strlit("min"); reveal_strlit("pi"); reveal_strlit("recip"); reveal_strlit("round"); reveal_strlit("sin"); reveal_strlit("sinh"); reveal_strlit("sqrt"); reveal_strlit("sum"); reveal_strlit("tan"); reveal_strlit("tanh"); reveal_strlit("trunc"); }
// ===== contexts =====
pub open spec fn sym_is_num(s: Symbol, p: spec_fn(f64) -> bool) -> bool { s is Variable && p(s->Variable_0) }
