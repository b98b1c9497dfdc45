//! One executable statement per property, over generated inputs, against the reference.
use crate::gen::*;
use crate::refimpl::{self as rf, Ctx, Env, Sym, Tok, F, T};
use crate::{Out, Run};
use miette::Diagnostic;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use xprs::{Context, Function, Parser, Symbol, Xprs};

const OPT: bool = cfg!(feature = "opt");
const PEJ: bool = cfg!(feature = "pejmdas");

pub fn run(r: &mut Run) {
    sized(r);
    match r.prop.as_str() {
        "C01" => c01(r),
        "C02" => c02(r),
        "C03" => c03(r),
        "C04" => c04(r),
        "C05" => c05(r),
        "C06" => c06(r),
        "C07" => c07(r),
        "C08" => c08(r),
        "C09" => c09(r),
        "C10" => c10(r),
        "C11" => c11(r),
        "C12" => c12(r),
        "C13" => c13(r),
        "C14" => c14(r),
        "C15" => c15(r),
        "C16" => c16(r),
        "C17" => c17(r),
        "C18" => c18(r),
        "C19" => crate::panics::c19(r),
        p => panic!("unknown property {p}"),
    }
}

pub fn show(s: &str) {
    let c = Ctx::new();
    println!("ref:  {:?}", rf::parse(s, &c, PEJ).map(|t| t.text()));
    match Xprs::try_from(s) {
        Ok(x) => println!("xprs: {x} vars={:?}", x.vars),
        Err(e) => { println!("xprs: {e}"); println!("{:?}", miette::Report::new(e)) }
    }
}

/* ------------------------------------------------------------ helpers */

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn numeq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn symbol(s: &Sym) -> Symbol {
    match s {
        Sym::Const(v) => (*v).into(),
        Sym::Fun(n, a, f) => Function::new_static(n, *f, *a).into(),
    }
}

fn build(c: &Ctx) -> Context<'static> {
    let mut x = Context::default();
    for (n, s) in c {
        match s {
            Sym::Const(v) => x.set_var(n, *v),
            Sym::Fun(n, a, f) => x.set_fn(Function::new_static(n, *f, *a)),
        }
    }
    x
}

fn ctx_text(c: &Ctx) -> String {
    c.iter()
        .map(|(n, s)| match s {
            Sym::Const(v) => format!("{n}={v:?}"),
            Sym::Fun(_, a, f) => format!(
                "{n}:fn/{a:?}#{}",
                IMPLS.iter().position(|g| *g as usize == *f as usize).unwrap_or(9)
            ),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn desc(input: &str, c: &Ctx) -> String {
    if c.is_empty() {
        format!("input={input:?}")
    } else {
        format!("input={input:?} context=[{}]", ctx_text(c))
    }
}

fn env_for<'a>(vars: impl IntoIterator<Item = &'a String>, r: &mut Rng, special: bool) -> Env {
    vars.into_iter()
        .map(|v| (v.clone(), if special { any_value(r) } else { generic_value(r) }))
        .collect()
}
fn hm(e: &Env) -> HashMap<&str, f64> {
    e.iter().map(|(k, v)| (k.as_str(), *v)).collect()
}

/// Whether the pair (reference value, observed value) is compatible; None when not decided here.
fn agrees(t: &T, env: &Env, got: f64) -> Option<bool> {
    rf::AMBIGUOUS.with(|c| c.set(false));
    let (v, good) = t.eval(env);
    if rf::AMBIGUOUS.with(|c| c.get()) {
        return None;
    }
    if !OPT || t.closed() {
        Some(same(v, got))
    } else if good {
        Some(numeq(v, got))
    } else {
        None
    }
}

/// Acceptance and value of one input against the reference.
fn versus(input: &str, c: &Ctx, r: &mut Rng, envs: usize, special: bool) -> Result<Out, String> {
    let want = rf::parse(input, c, PEJ);
    let parser = Parser::new_with_ctx(build(c));
    let got = parser.parse(input);
    match (&want, &got) {
        (Err(_), Err(_)) => return Ok(Out::Trivial),
        (Ok(t), Err(e)) => return Err(format!("rejected with `{e}`, expected {}", t.text())),
        (Err(_), Ok(x)) => return Err(format!("accepted as {x}, expected an error")),
        _ => {}
    }
    let (t, x) = (want.unwrap(), got.unwrap());
    let fv = t.free();
    let n = if fv.is_empty() { 1 } else { envs };
    let mut decided = false;
    for i in 0..n {
        let env = env_for(&fv, r, special && i > 0);
        let got = match x.eval(&hm(&env)) {
            Ok(v) => v,
            Err(e) => return Err(format!("evaluation with all variables failed: {e}")),
        };
        match agrees(&t, &env, got) {
            None => {}
            Some(true) => decided = true,
            Some(false) => {
                return Err(format!(
                    "parsed as {x} which gives {got:?} at {env:?}; expected {} = {:?}",
                    t.text(),
                    t.eval(&env).0
                ))
            }
        }
    }
    Ok(if !decided {
        Out::Skip
    } else if t.size() > 1 {
        Out::Ok
    } else {
        Out::Trivial
    })
}

fn funs(c: &Ctx) -> Vec<(&'static str, Option<u8>)> {
    let mut v: Vec<(&'static str, Option<u8>)> =
        rf::BUILTINS.iter().filter(|b| !c.contains_key(b.0)).copied().collect();
    for (n, s) in c {
        if let Sym::Fun(_, a, _) = s {
            for _ in 0..8 {
                v.push((n, *a));
            }
        }
    }
    v
}

fn gen_case(r: &mut Rng, depth: usize, sloppy: bool) -> (String, Ctx) {
    let c = if r.chance(1, 2) { Ctx::new() } else { context(r) };
    let g = ExprGen { vars: VARS, funs: funs(&c), sloppy, closed: false, small: r.chance(1, 2) };
    let d = r.below(depth + 1);
    let s = if r.chance(1, 3) { rule_expr(r, &g, d) } else { g.expr(r, d) };
    (s, c)
}

fn span_of(e: &xprs::ParseError) -> Option<(usize, usize)> {
    e.labels()?.next().map(|l| (l.offset(), l.len()))
}

/* ------------------------------------------------------------ C01 */

fn check_error(input: &str, e: &xprs::ParseError) -> Result<(), String> {
    let src = e.source_code().ok_or("error without source")?;
    let all = src
        .read_span(&(0, input.len()).into(), 0, 0)
        .map_err(|x| format!("unreadable source: {x:?}"))?;
    if all.data() != input.as_bytes() {
        return Err(format!("error source is {:?}", String::from_utf8_lossy(all.data())));
    }
    if src.read_span(&(0, input.len() + 1).into(), 0, 0).is_ok_and(|s| s.data().len() > input.len()) {
        return Err("error source is longer than the input".into());
    }
    let (o, l) = span_of(e).ok_or("error without label")?;
    if o.checked_add(l).map_or(true, |end| end > input.len()) {
        return Err(format!("span {o}+{l} outside an input of {} bytes (`{e}`)", input.len()));
    }
    let _ = e.to_string();
    if let Some(h) = e.help() {
        let _ = h.to_string();
    }
    Ok(())
}

fn c01_one(input: &str, c: &Ctx, render: bool) -> Result<Out, String> {
    let p = Parser::new_with_ctx(build(c));
    match p.parse(input) {
        Ok(x) => {
            let _ = x.to_string();
            Ok(Out::Trivial)
        }
        Err(e) => {
            check_error(input, &e)?;
            if render {
                let mut s = String::new();
                let h = miette::GraphicalReportHandler::new_themed(miette::GraphicalTheme::unicode_nocolor());
                h.render_report(&mut s, &e).map_err(|_| "rendering failed".to_string())?;
            }
            Ok(Out::Ok)
        }
    }
}

fn c01(run: &mut Run) {
    let mut r = Rng::new(run.seed, 101);
    let none = Ctx::new();
    for len in 0..=3u32 {
        for n in 0..17u64.pow(len) {
            let s = nth_tokens(n, len as usize);
            run.case(desc(&s, &none), || c01_one(&s, &none, false));
        }
    }
    // every single and every pair of bytes that is a string
    for a in 0..=255u8 {
        for b in 0..=256usize {
            let v: Vec<u8> = if b == 256 { vec![a] } else { vec![a, b as u8] };
            if let Ok(s) = std::str::from_utf8(&v) {
                run.case(desc(s, &none), || c01_one(s, &none, b == 256));
            }
        }
    }
    for i in 0..60_000 * run.scale {
        let (s, c) = match r.below(3) {
            0 => (garbage(&mut r), none.clone()),
            1 => (garbage(&mut r), context(&mut r)),
            _ => {
                let (mut s, c) = gen_case(&mut r, 3, true);
                for _ in 0..1 + r.below(3) {
                    s = mutate(&mut r, &s);
                }
                (s, c)
            }
        };
        run.case(desc(&s, &c), || c01_one(&s, &c, i % 8 == 0));
    }
    // truncations of long and wide inputs, many arguments, deep nesting within the stack
    for n in [1usize, 2, 100, 254, 255, 256, 257, 300, 1000] {
        let c: Ctx = [
            ("f", Sym::Fun("f", Some(255), u_f as rf::UserFn)),
            ("g", Sym::Fun("g", Some(0), u_g as rf::UserFn)),
        ]
        .into_iter()
        .collect();
        for name in ["f", "g", "sin", "max", "atan2"] {
            let s = format!("{name}({})", vec!["x"; n].join(","));
            run.case(desc(&s, &c), || c01_one(&s, &c, true));
            let s = format!("{name}({}", vec!["1"; n].join(" , "));
            run.case(desc(&s, &c), || c01_one(&s, &c, true));
        }
        for (o, m, cl) in [("(", "x", ")"), ("-", "x", ""), ("sin(", "x", ")"), ("1+(", "y", ")"), ("(", "", "")] {
            let s = format!("{}{m}{}", o.repeat(n), cl.repeat(n));
            run.case(desc(&s, &none), || c01_one(&s, &none, false));
            let s = format!("{}{m}{}", o.repeat(n), cl.repeat(n.saturating_sub(1)));
            run.case(desc(&s, &none), || c01_one(&s, &none, false));
        }
        for unit in ["x+", "2*x^", "1 ", "x", "9", ".", "_1", "é", "x!", "!", ",", " "] {
            let s = unit.repeat(n);
            run.case(desc(&s, &none), || c01_one(&s, &none, n < 300));
            let s = format!("1{}", unit.repeat(n));
            run.case(desc(&s, &none), || c01_one(&s, &none, n < 300));
        }
    }
}

/* ------------------------------------------------------------ C02 */

fn c02(run: &mut Run) {
    let mut r = Rng::new(run.seed, 102);
    let none = Ctx::new();
    let full = if run.scale > 3 { 5 } else { 4 };
    for len in 0..=full {
        for n in 0..17u64.pow(len) {
            let s = nth_tokens(n, len as usize);
            run.case(desc(&s, &none), || versus(&s, &none, &mut Rng::new(n, 7), 1, false));
        }
        if run.done() {
            return;
        }
    }
    for _ in 0..60_000 * run.scale {
        let len = 5 + r.below(5);
        let n = r.next();
        let s = nth_tokens(n, len);
        run.case(desc(&s, &none), || versus(&s, &none, &mut Rng::new(n, 7), 1, false));
    }
    // operator chains without parentheses: every pair and triple of binary operators, with
    // signs, factorials and juxtapositions
    let ops = ["+", "-", "*", "/", "%", "^", " ", "!*", "!", "! ", "*-", "^-", "--", "/-", "!^", "%+", "+-", "^+", "!-"];
    for a in ops {
        for b in ops {
            for c in ["", "+", "-", "*", "/", "%", "^", " ", "!"] {
                for (w, x, y, z) in [("w", "x", "y", "z"), ("2", "x", "3", "Y"), ("w", "(x)", "2", "sin(z)"), ("-w", "2", "x", "4")] {
                    let s = if c.is_empty() { format!("{w}{a}{x}{b}{y}") } else { format!("{w}{a}{x}{b}{y}{c}{z}") };
                    run.case(desc(&s, &none), || versus(&s, &none, &mut Rng::new(1, 7), 2, false));
                }
            }
        }
    }
    // every ASCII character, and some others, between and around operands
    for ch in (0..128u32).chain([0xa0, 0xd7, 0xe9, 0x2003, 0x2212, 0x3000, 0xff08]).filter_map(char::from_u32) {
        for s in [
            format!("x{ch}y"), format!("x {ch} y"), format!("{ch}x"), format!("x{ch}"), format!("2{ch}3"),
            format!("(x){ch}(y)"), format!("(x){ch}2"), format!("2{ch}x"), format!("x!{ch}2"), format!("max(x{ch}y)"),
            format!("1+2{ch}"), format!("x ^ 2{ch}3"), format!("-{ch}x"),
        ] {
            run.case(desc(&s, &none), || versus(&s, &none, &mut Rng::new(1, 7), 2, false));
        }
    }
    for _ in 0..40_000 * run.scale {
        let (mut s, c) = gen_case(&mut r, 3, false);
        if r.chance(1, 4) {
            s = mutate(&mut r, &s);
        }
        let k = r.next();
        run.case(desc(&s, &c), || versus(&s, &c, &mut Rng::new(k, 7), 2, false));
    }
}

/* ------------------------------------------------------------ C03 */

fn c03_one(s: &str, c: &Ctx) -> Result<Out, String> {
    let toks = rf::tokenize(s);
    if toks.len() == 1 {
        if let Tok::Num(text, v) = &toks[0].0 {
            let got = Xprs::try_from(s);
            return match (v, got) {
                (Some(v), Ok(x)) => match x.eval_no_vars() {
                    Ok(g) if g.to_bits() == v.to_bits() => Ok(Out::Ok),
                    g => Err(format!("evaluates to {g:?}, expected {v:?}")),
                },
                (Some(v), Err(e)) => Err(format!("rejected with `{e}`, expected {v:?}")),
                (None, Ok(x)) => Err(format!("accepted as {x}, expected a malformed number error")),
                (None, Err(e)) => {
                    let m = e.to_string();
                    if m.contains("Malformed") && m.contains(&format!("`{text}`")) {
                        Ok(Out::Ok)
                    } else {
                        Err(format!("reported `{m}`, expected the malformed number {text:?}"))
                    }
                }
            };
        }
    }
    versus(s, c, &mut Rng::new(3, 3), 1, false)
}

fn c03(run: &mut Run) {
    let mut r = Rng::new(run.seed, 103);
    let none = Ctx::new();
    let max = if run.scale > 3 { 6 } else { 5 };
    for len in 1..=max {
        for n in 0..10u64.pow(len) {
            let s = nth_numeric(n, len as usize);
            run.case(desc(&s, &none), || c03_one(&s, &none));
        }
        if run.done() {
            return;
        }
    }
    for _ in 0..40_000 * run.scale {
        let len = 5 + r.below(8);
        let n = r.next();
        let body = nth_numeric(n, len);
        let s = match r.below(5) {
            0 => body,
            1 => format!("x*{body}"),
            2 => format!("({body})"),
            3 => format!("{body} + {}", nth_numeric(n.rotate_left(20), 3)),
            _ => format!("max({body},{})", nth_numeric(n.rotate_left(23), 4)),
        };
        run.case(desc(&s, &none), || c03_one(&s, &none));
    }
    // values: long mantissas, extreme exponents, round-trip of random doubles, halfway cases
    for _ in 0..30_000 * run.scale {
        // few digits, wherever the point or the exponent puts them
        let few = |r: &mut Rng| {
            let n = 1 + r.below(19);
            let mut d: String = (0..n).map(|_| char::from(b'0' + r.below(10) as u8)).collect();
            if r.chance(1, 4) {
                d += &"0".repeat(r.below(30));
            }
            d
        };
        let s = match r.below(10) {
            6 => format!("{}.{}{}", if r.chance(1, 2) { "0" } else { "" }, "0".repeat(r.below(45)), few(&mut r)),
            7 => format!("{}.{}{}", r.below(1000), "0".repeat(r.below(30)), few(&mut r)),
            8 => format!("{}e{}{}", few(&mut r), r.pick(&["", "+", "-"]), r.below(50)),
            9 => format!("{}", f64::from_bits(((1023 - 200 + r.below(400)) as u64) << 52 | r.next() >> 12)),
            0 => format!("{:?}", f64::from_bits(r.next() >> 1)),
            1 => format!("{:e}", f64::from_bits(r.next() >> 1)),
            2 => {
                let n = 1 + r.below(60);
                let d: String = (0..n).map(|_| char::from(b'0' + r.below(10) as u8)).collect();
                let m = r.below(40);
                let f: String = (0..m).map(|_| char::from(b'0' + r.below(10) as u8)).collect();
                format!("{d}.{f}e{}{}", r.pick(&["", "+", "-"]), r.below(400))
            }
            3 => format!("{}", 9_007_199_254_740_991u64 + r.below(4096) as u64),
            4 => {
                let mut s = format!("{:?}", f64::from_bits(r.next() >> 1).abs());
                let i = 1 + r.below(s.len().min(8));
                if s.is_char_boundary(i) {
                    s.insert(i, '_');
                }
                s
            }
            _ => literal(&mut r),
        };
        if s.contains("NaN") || s.contains("inf") {
            continue;
        }
        run.case(desc(&s, &none), || c03_one(&s, &none));
    }
    for follow in ["e", "E", "e5", "E+", "e-", "e+x", "e-1", "ex", "pi", "x", "_", "__1", "_.5", "._5", "e_5", "e5_0", "e5.", "e5e5", "e5x", "ee", "e(2)", "e 5", "E5", "e+5-2", "!", "e!", " e5"] {
        for lead in ["1", "1.", ".5", "1.5", "1_0", "1__", "0", "00", "1.2.3", "..", ".", "1e3", "1E-2", "._", "1_", "_1"] {
            for pre in ["", "x+", "-", "(", "max(2,"] {
                let s = match pre {
                    "(" | "max(2," => format!("{pre}{lead}{follow})"),
                    _ => format!("{pre}{lead}{follow}"),
                };
                run.case(desc(&s, &none), || c03_one(&s, &none));
            }
        }
    }
}

/* ------------------------------------------------------------ C04 */

fn c04(run: &mut Run) {
    let mut r = Rng::new(run.seed, 104);
    let none = Ctx::new();
    for (name, _) in rf::BUILTINS {
        for k in 0..6 {
            for s in [
                format!("{name}({})", (0..k).map(|i| format!("x{i}")).collect::<Vec<_>>().join(",")),
                format!("2{name}({})", (0..k).map(|i| format!("0.{i}1")).collect::<Vec<_>>().join(" , ")),
                format!("{name} ({})", (0..k).map(|i| format!("y-{i}")).collect::<Vec<_>>().join(",")),
            ] {
                run.case(desc(&s, &none), || versus(&s, &none, &mut Rng::new(k, 4), 2, false));
            }
        }
        for s in [
            format!("{name}"), format!("{name} 2"), format!("{name}*2"), format!("2{name}"), format!("{name}1(2)"),
            format!("{name}_"), format!("x{name}"), format!("{name}x + 1"), format!("({name})(2)"), format!("{name}'(3)"),
        ] {
            run.case(desc(&s, &none), || versus(&s, &none, &mut Rng::new(4, 4), 2, false));
        }
        // shadowed by a constant, by functions of other arities
        for sym in [Sym::Const(1.25), Sym::Fun(name, None, u_g), Sym::Fun(name, Some(3), u_f), Sym::Fun(name, Some(0), u_h)] {
            let c: Ctx = [(*name, sym)].into_iter().collect();
            for s in [
                format!("{name}"), format!("{name}(0.5)"), format!("{name}(0.5,x)"), format!("{name}(x,y,z)"),
                format!("{name}()"), format!("2{name}(x+1)"), format!("{name}^2"), format!("{name}x"),
            ] {
                run.case(desc(&s, &c), || versus(&s, &c, &mut Rng::new(4, 4), 2, false));
            }
        }
    }
    for name in ["e", "pi", "x", "f", "F'", "a_1"] {
        for sym in [Sym::Const(-3.5), Sym::Fun(name, None, u_g), Sym::Fun(name, Some(1), u_f), Sym::Fun(name, Some(2), u_h)] {
            let c: Ctx = [(name, sym)].into_iter().collect();
            for s in [
                format!("{name}"), format!("{name}(2)"), format!("{name}(2,y)"), format!("2{name}"), format!("2 {name} (y)"),
                format!("{name}()"), format!("e + pi + x + f"), format!("{name}^{name}"), format!("1{name}5"),
                format!("{name} 2"), format!("{name} (2)"), format!("x {name}"), format!("x + {name} 3"), format!("({name}) 3"), format!("{name}!"),
                format!("{name} {name}"), format!("2 {name} 3 {name}"), format!("-{name} 4"), format!("{name}\t(\n2 , y )"), format!("{name}{name}"),
            ] {
                run.case(desc(&s, &c), || versus(&s, &c, &mut Rng::new(4, 4), 2, false));
            }
        }
    }
    // every declared arity against nearby counts
    for k in (0..=20u16).chain([63, 64, 100, 127, 128, 129, 200, 254, 255]) {
        for m in [0, 1, 2, 3, 7, 8, 9, 10, k.saturating_sub(1), k, k + 1, k + 2, k + 256, k + 255, k * 2] {
            let c: Ctx = [
                ("f", Sym::Fun("f", Some(k as u8), u_f as rf::UserFn)),
                ("v", Sym::Fun("v", None, u_g as rf::UserFn)),
            ]
            .into_iter()
            .collect();
            for n in ["f", "v"] {
                let s = format!("{n}({})", (0..m).map(|i| if i % 3 == 0 { "x".into() } else { format!("{i}") }).collect::<Vec<_>>().join(","));
                run.case(desc(&s, &c), || versus(&s, &c, &mut Rng::new(4, 4), 1, false));
            }
        }
    }
    // identifier shapes
    let chars: Vec<char> = (33..127u8).map(char::from).chain(['é', 'ñ', 'λ', '²']).collect();
    for a in &chars {
        for b in &chars {
            let s = format!("{a}{b}");
            run.case(desc(&s, &none), || versus(&s, &none, &mut Rng::new(4, 4), 1, false));
            let s = format!("q{a}{b} * 2");
            run.case(desc(&s, &none), || versus(&s, &none, &mut Rng::new(4, 4), 1, false));
        }
    }
    for _ in 0..50_000 * run.scale {
        let mut c = context(&mut r);
        for (n, s) in context(&mut r) {
            c.insert(n, s);
        }
        let g = ExprGen { vars: VARS, funs: funs(&c), sloppy: true, closed: false, small: false };
        let d = r.below(3);
        let mut s = g.expr(&mut r, d);
        if r.chance(1, 3) && !c.is_empty() {
            let names: Vec<&&str> = c.keys().collect();
            let n = **r.pick(&names);
            s = format!("{s} + {n}{}", r.pick(&["", "(", "()", "(1)", "(x)", "(1,2)", " (y)", "2", "_", "(1,)", "(,1)", "(1;2)", "(1 2)"]));
        }
        let k = r.next();
        run.case(desc(&s, &c), || versus(&s, &c, &mut Rng::new(k, 7), 2, false));
    }
}

/* ------------------------------------------------------------ C05 */

fn c05_one(s: &str, c: &Ctx, r: &mut Rng) -> Result<Out, String> {
    let Ok(t) = rf::parse(s, c, PEJ) else { return Ok(Out::Skip) };
    let p = Parser::new_with_ctx(build(c));
    let Ok(x) = p.parse(s) else { return Ok(Out::Skip) };
    let fv = t.free();
    let xv: BTreeSet<String> = x.vars.iter().map(|s| s.to_string()).collect();
    for i in 0..4 {
        let mut env = env_for(&fv, r, i > 0);
        env.insert("unused_one".into(), 3.5);
        let m = hm(&env);
        let got = x.eval(&m).map_err(|e| format!("evaluation with all variables failed: {e}"))?;
        let unc = x.eval_unchecked(&m);
        if !same(got, unc) {
            return Err(format!("eval gives {got:?} but eval_unchecked {unc:?} at {env:?}"));
        }
        if x.vars.is_empty() {
            let a = x.eval_no_vars().map_err(|e| format!("eval_no_vars failed: {e}"))?;
            let b = x.eval_no_vars_unchecked();
            if !same(a, got) || !same(b, got) {
                return Err(format!("eval {got:?}, eval_no_vars {a:?}, eval_no_vars_unchecked {b:?}"));
            }
        } else if x.eval_no_vars().is_ok() {
            return Err("eval_no_vars succeeds although there are variables".into());
        }
        if !OPT || t.closed() {
            if agrees(&t, &env, got) == Some(false) {
                return Err(format!("{x} evaluates to {got:?} at {env:?}, expected {:?}", t.eval(&env).0));
            }
        }
        // some variables missing
        if !fv.is_empty() {
            let gone: BTreeSet<String> = fv.iter().filter(|_| r.chance(1, 2)).cloned().collect();
            let part: Env = env.iter().filter(|(k, _)| !gone.contains(*k)).map(|(k, v)| (k.clone(), *v)).collect();
            let needed: BTreeSet<&String> = (if OPT { &xv } else { &fv }).intersection(&gone).collect();
            match x.eval(&hm(&part)) {
                Ok(v) => {
                    if !needed.is_empty() {
                        return Err(format!("{x} evaluates to {v:?} at {part:?} although {needed:?} is missing"));
                    }
                    if !same(v, got) {
                        return Err(format!("{x}: {v:?} without unneeded variables, {got:?} with them"));
                    }
                }
                Err(e) => {
                    let m = e.to_string();
                    if !needed.iter().any(|n| m.contains(&format!("'{n}'"))) {
                        return Err(format!("{x} at {part:?}: error `{m}` does not name one of {needed:?}"));
                    }
                }
            }
        }
    }
    Ok(if t.size() > 1 { Out::Ok } else { Out::Trivial })
}

fn c05(run: &mut Run) {
    let mut r = Rng::new(run.seed, 105);
    let none = Ctx::new();
    for op in ["+", "-", "*", "/", "^", "%"] {
        for a in SPECIAL {
            for b in SPECIAL {
                let s = format!("x{op}y");
                run.case(format!("{} x={a:?} y={b:?}", desc(&s, &none)), || {
                    let x = Xprs::try_from(s.as_str()).map_err(|e| e.to_string())?;
                    let t = rf::parse(&s, &none, PEJ).unwrap();
                    let env: Env = [("x".to_string(), *a), ("y".to_string(), *b)].into_iter().collect();
                    let want = t.eval(&env).0;
                    let (g, u) = (x.eval(&hm(&env)), x.eval_unchecked(&hm(&env)));
                    if g.as_ref().map_or(true, |g| !same(*g, want)) || !same(u, want) {
                        return Err(format!("gives {g:?} / {u:?}, expected {want:?}"));
                    }
                    Ok(Out::Ok)
                });
            }
        }
    }
    for u in ["-x", "+x", "x!", "-x!", "--x", "(-x)!", "+-x"] {
        for a in SPECIAL {
            run.case(format!("{} x={a:?}", desc(u, &none)), || {
                let x = Xprs::try_from(u).map_err(|e| e.to_string())?;
                let t = rf::parse(u, &none, PEJ).unwrap();
                let env: Env = [("x".to_string(), *a)].into_iter().collect();
                let want = t.eval(&env).0;
                let (g, u) = (x.eval(&hm(&env)), x.eval_unchecked(&hm(&env)));
                if g.as_ref().map_or(true, |g| !same(*g, want)) || !same(u, want) {
                    return Err(format!("gives {g:?} / {u:?}, expected {want:?}"));
                }
                Ok(Out::Ok)
            });
        }
    }
    for _ in 0..50_000 * run.scale {
        let (s, c) = gen_case(&mut r, 3, false);
        let k = r.next();
        run.case(desc(&s, &c), || c05_one(&s, &c, &mut Rng::new(k, 7)));
    }
    wide(run, |s, c| c05_one(s, c, &mut Rng::new(5, 5)));
}

/// Wide and deep expressions.
fn wide(run: &mut Run, f: impl Fn(&str, &Ctx) -> Result<Out, String>) {
    let none = Ctx::new();
    for n in [2usize, 9, 10, 16, 33, 64, 130, 257] {
        let vs: Vec<String> = (0..n).map(|i| format!("v{i}")).collect();
        for s in [
            vs.join("+"), vs.join("-"), vs.join("*"), vs.join("/"), vs.join(" "), format!("max({})", vs.join(",")),
            format!("sum({})", vs.join(",")), format!("mean({})", vs.join(", ")), format!("min({})", vs.join(" ,")),
            format!("{}x{}", "(".repeat(n), ")".repeat(n)), format!("{}x", "-".repeat(n)),
            format!("{}1{}", "sin(".repeat(n), ")".repeat(n)), format!("{}v{}", "(1+".repeat(n), ")".repeat(n)),
        ] {
            run.case(desc(&s, &none), || f(&s, &none));
        }
    }
}

/// Inputs of each size in `sizes()`: long literals, names, lists, chains and nestings.
fn sized_inputs(n: usize) -> Vec<String> {
    let list = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
    let m = n.min(600);
    let rep = |s: &str| s.repeat(m);
    let name = "abcdefghij".repeat(n / 10 + 1)[..n].to_string();
    let digits = "1234567890".repeat(n / 10 + 1)[..n].to_string();
    vec![
        // literals
        digits.clone(), format!("1{}", "0".repeat(n)), format!("0.{digits}"), format!("{digits}5 - {digits}6"), format!("{}1", "0".repeat(n)),
        format!("1.{}1", "0".repeat(n)), format!("{n}"), format!("{n}.5"), format!(".{n}"), format!("1e{n}"), format!("1e-{n}"), format!("{n}{}", "_0".repeat(n % 40)),
        format!("1{}", "_".repeat(n)), format!("1e0{}", "0".repeat(n)), format!("{n}!"), format!("{n}.5!"), format!("{digits}x"), format!("{digits}(x)"),
        // names
        format!("{name}x"), format!("{name}x - {name}y"), format!("{name}x({name}y)"), format!("{name}_"), format!("x{n}"), format!("x{n}y{n} - x{n}"),
        format!("{name} {name}"), format!("2{name}"), format!("a{}", "_".repeat(n)), format!("sin{}(1)", "n".repeat(n)), format!("e{digits}"),
        // lists of arguments
        format!("max({})", list(&|i| format!("{}", (i * 7919) % 1013), ",")), format!("sum({})", list(&|i| format!("v{i}"), ",")),
        format!("min({})", list(&|i| format!("-v{i}*{i}"), ", ")), format!("mean({})", list(&|i| format!("{i}.5"), ",")),
        format!("sin({})", list(&|_| "1".into(), ",")), format!("hypot({})", list(&|_| "x".into(), ",")), format!("max({}", ",".repeat(n)), format!("gamma({})", list(&|_| "2".into(), " ,")),
        // one variable at the end, in the middle and at the start of what is constant otherwise, within something else
        format!("max(1, sum({}))", list(&|i| if i + 1 == n { "x".into() } else { "1".into() }, ",")), format!("-sum({}) * y", list(&|i| if i == n / 2 { "x".into() } else { format!("{i}") }, ",")),
        format!("hypot(max({}), y)", list(&|i| if i == 0 { "x".into() } else { "y".into() }, ",")), format!("max({}) + 1", list(&|i| if i + 1 == n { "sin(min(x, y))".into() } else { "y".into() }, ",")),
        format!("sum(y, max({}), 3)!", list(&|i| if i + 1 == n { "(-x)".into() } else { "2".into() }, ",")), format!("min({}1, x, y)", "2, ".repeat(n)), format!("sin({}x) ^ y", rep("1 + ")),
        format!("max(y, {}x{})", rep("(y * "), rep(")")), format!("max(sum({}), sum({}))", list(&|_| "y".into(), ","), list(&|i| if i + 1 == n { "x".into() } else { "y".into() }, ",")),
        // chains
        list(&|i| format!("v{i}"), "+"), list(&|i| format!("{i}"), "-"), list(&|i| format!("v{i}"), "/"), list(&|i| format!("{}", 1 + i % 3), "^"),
        list(&|i| format!("v{i}"), " "), list(&|i| format!("v{i}*{}", n - i), "-"), list(&|i| format!("(v{i}+{i})"), ""), list(&|i| format!("x{i}"), "%"),
        format!("x{}1", "+".repeat(m)), format!("x{}1", "-".repeat(m)), format!("x{}", "!".repeat(m)), format!("2{}", "(1)".repeat(m)),
        format!("{}+@", list(&|_| "x".into(), "+")), format!("{}++", list(&|_| "y".into(), "*")), format!("{}foo(1)", rep("1+")),
        // nestings
        format!("{}x{}", rep("("), rep(")")), format!("{}x{}", rep("-("), rep(")")), format!("{}x{}", rep("sin("), rep(")")), format!("{}1{}", rep("(1+"), rep(")")),
        format!("{}x", rep("-")), format!("{}x", rep("(")), format!("x{}", rep(")")), format!("{}x{}", rep("2("), rep(")")), format!("{}x", rep("2^")),
        format!("{}x{}", rep("max(1,"), rep(")")), format!("{}x{})", rep("("), rep(")")), format!("{}x{}", rep("(x+"), rep(")!")), format!("{}1{}", rep("("), rep(",")),
        // positions
        format!("{}x", " ".repeat(n)), format!("x{}", " ".repeat(n)), format!("x{}+{}y", " ".repeat(n), "\t".repeat(n)), format!("{}@", " ".repeat(n)), format!("{}é", "x".repeat(n)),
        format!("{}x)", "\n".repeat(n)), format!("{}1.2.3", " ".repeat(n)), format!("max({}1)", "\n".repeat(n)), format!("2{}x", " ".repeat(n)), format!("x{}!", " ".repeat(n)),
        // values
        format!("x - {n}"), format!("x * {n}"), format!("{n} / x"), format!("{n} ^ 2 - x"), format!("{n} % 7 + x"), format!("{n} + {n}"), format!("x^{n}"), format!("x^-{n}"), format!("{n}^x"),
        format!("1/{n} + x"), format!("2^{n}"), format!("2^-{n}"), format!("sqrt({n})"), format!("ln({n})"), format!("max({n},x)"), format!("x%{n}"), format!("{n}x"), format!("x {n}"),
        format!("gamma({n})"), format!("factorial({n})"), format!("10^{n}*x"), format!("-{n}"), format!("-{n}!"), format!("({n})-({n})"), format!("x*{n}/{n}"),
    ]
}

fn sized(run: &mut Run) {
    let prop = run.prop.clone();
    let none = Ctx::new();
    if matches!(prop.as_str(), "C04" | "C12") {
        sized_contexts(run);
    }
    for n in sizes() {
        let inputs = sized_inputs(n);
        let mut prev: Option<&String> = None;
        for (i, s) in inputs.iter().enumerate() {
            if run.done() {
                return;
            }
            let mut r = Rng::new(n as u64, i as u64);
            let d = if s.len() < 400 { desc(s, &none) } else { format!("input of {} bytes: {:?}... (input {i} of sized_inputs({n}))", s.len(), s.chars().take(60).collect::<String>()) };
            let cut = |e: Result<Out, String>| e.map_err(|e| e.chars().take(600).collect());
            match prop.as_str() {
                "C01" => run.case(d, || cut(c01_one(s, &none, n % 16 == 0))),
                "C02" | "C04" => run.case(d, || cut(versus(s, &none, &mut r, 2, false))),
                "C03" => run.case(d, || cut(c03_one(s, &none))),
                "C05" => run.case(d, || cut(c05_one(s, &none, &mut r))),
                "C06" if n <= 300 => run.case(d, || cut(c06_one(s, &none, &mut r))),
                "C07" => run.case(d, || cut(c07_one(s, &none, &mut r))),
                "C08" => run.case(d, || cut(c08_one(s, &none))),
                "C13" => run.case(d, || cut(c13_one(s, &none))),
                "C14" => {
                    run.case(d.clone(), || cut(c14_one(s, &none, &mut r.clone(), false)));
                    run.case(d, || cut(c14_one(s, &none, &mut r, true)));
                }
                "C15" => run.case(d, || cut(c15_one(s, &none, &mut r))),
                "C17" => {
                    run.case(d.clone(), || cut(c17_one(s, s, &none, &mut r)));
                    if let Some(t) = prev {
                        run.case(format!("{d} and the input before it"), || cut(c17_one(s, t, &none, &mut r)));
                    }
                    let near = format!("{s}1");
                    run.case(format!("{d} and the same with 1 behind it"), || cut(c17_one(s, &near, &none, &mut r)));
                }
                "C18" => {
                    // the second of two that differ at the end only, after the first
                    let cs: Vec<String> = s.split(" - ").map(str::to_string).chain([s.clone(), format!("{s}1"), format!("{s}2")]).collect();
                    let hist: Vec<(String, Rng)> = cs.into_iter().map(|s| (s, Rng::new(3, 18))).collect();
                    if n <= 130 {
                        run.case(format!("history of {d}"), || {
                            cut(same_each_time(&none, &None, &hist).map(|()| Out::Ok))?;
                            for (s, k) in &hist {
                                cut(c07_one(s, &none, &mut k.clone()))?;
                                cut(c08_one(s, &none))?;
                            }
                            Ok(Out::Ok)
                        });
                    }
                }
                _ => return,
            }
            prev = Some(s);
        }
    }
}

/// Contexts of each size: every symbol is found, means what it was set to, and is the only one meant.
fn sized_contexts(run: &mut Run) {
    let name = |p: &str, i: usize| -> &'static str { Box::leak(format!("{p}{i}").into_boxed_str()) };
    for n in sizes().into_iter().filter(|n| *n <= 600) {
        let mut c = Ctx::new();
        let ks: Vec<&'static str> = (0..n).map(|i| name("k", i)).collect();
        let fs: Vec<&'static str> = (0..n).map(|i| name("f", i)).collect();
        for i in 0..n {
            c.insert(ks[i], Sym::Const(i as f64 * 0.5 - 3.0));
            c.insert(fs[i], Sym::Fun(fs[i], Some((i % 3) as u8), IMPLS[i % 3]));
        }
        let call = |i: usize| format!("{}({})", fs[i], ["", "x", "x,2"][i % 3]);
        let s = (0..n).map(|i| format!("{} * {}", ks[i], call(i))).chain([format!("k{n} + y")]).collect::<Vec<_>>().join(" - ");
        run.case(format!("{} constants k.. and functions f.. in the context", n), || {
            versus(&s, &c, &mut Rng::new(3, 7), 2, false).map_err(|e| e.chars().take(400).collect::<String>())?;
            let built = build(&c);
            for (k, v) in &c {
                let ok = match (v, built.get(k)) {
                    (Sym::Const(v), Some(Symbol::Variable(w))) => same(*v, *w),
                    (Sym::Fun(n, a, _), Some(Symbol::Function(g))) => g.name == *n && g.nb_args == *a,
                    _ => false,
                };
                if !ok {
                    return Err(format!("get({k:?}) is {:?}", built.get(k)));
                }
            }
            if built.get(&format!("k{n}")).is_some() {
                return Err("a symbol too many".into());
            }
            Ok(Out::Ok)
        });
        run.case(format!("{n} expected variables k.."), || {
            let letters = ["a", "b", "c", "d", "f", "g", "h", "x", "y", "X"];
            let ks: Vec<&'static str> = letters.into_iter().take(n / 2).chain(ks.iter().copied()).collect();
            let set: HashSet<&'static str> = ks.iter().copied().collect();
            let p = Parser::new_with_ctx(Context::default().with_expected_vars(set.clone()));
            if p.ctx().get_expected_vars() != Some(&set) {
                return Err("the expected variables are not those set".into());
            }
            let sum = ks.iter().copied().chain(["1"]).collect::<Vec<_>>().join("+");
            p.parse(&sum).map_err(|e| format!("all of them: rejected with {}", e.to_string().chars().take(200).collect::<String>()))?;
            let more = format!("{sum}+k{n}");
            let Err(e) = p.parse(&more) else { return Err(format!("k{n} is accepted")) };
            let h = e.help().map(|h| h.to_string()).unwrap_or_default();
            if !e.to_string().contains(&format!("`k{n}`")) || ks.iter().any(|k| !h.contains(&format!("`{k}`"))) {
                return Err(format!("error {e} with help {}", h.chars().take(300).collect::<String>()));
            }
            Ok(Out::Ok)
        });
    }
}

/* ------------------------------------------------------------ C06 */

fn vars_exact(x: &Xprs, r: &mut Rng) -> Result<(), String> {
    let xv: BTreeSet<String> = x.vars.iter().map(|s| s.to_string()).collect();
    if xv.len() != x.vars.len() {
        return Err("duplicate variables".into());
    }
    let env = env_for(&xv, r, false);
    if let Err(e) = x.eval(&hm(&env)) {
        return Err(format!("{x} reports variables {xv:?} but needs more: {e}"));
    }
    for v in &xv {
        let mut part = env.clone();
        part.remove(v);
        if let Ok(y) = x.eval(&hm(&part)) {
            return Err(format!("{x} reports variable {v:?} but evaluates to {y:?} without it"));
        }
    }
    Ok(())
}

fn c06_one(s: &str, c: &Ctx, r: &mut Rng) -> Result<Out, String> {
    let Ok(t) = rf::parse(s, c, PEJ) else { return Ok(Out::Skip) };
    let p = Parser::new_with_ctx(build(c));
    let Ok(x) = p.parse(s) else { return Ok(Out::Skip) };
    let fv = t.free();
    let xv: BTreeSet<String> = x.vars.iter().map(|s| s.to_string()).collect();
    if !OPT && xv != fv || !xv.is_subset(&fv) {
        return Err(format!("{x} reports variables {xv:?}, expected {fv:?}"));
    }
    vars_exact(&x, r)?;
    let mut y = x.clone();
    let mut left = fv.clone();
    let mut log = vec![];
    let pool: Vec<String> = fv.iter().cloned().chain(["nope".to_string(), "x".to_string()]).collect();
    for _ in 0..3 {
        let one = |r: &mut Rng| (r.pick(&pool).clone(), if r.chance(1, 2) { *r.pick(&[0.0, 1.0, -0.0, 2.0]) } else { any_value(r) });
        let k = r.below(4);
        let pairs: Vec<(String, f64)> = if k < 2 { vec![one(r)] } else { (0..if r.chance(1, 30) { 3 + r.below(40) } else { r.below(4) }).map(|_| one(r)).collect() };
        let ps: Vec<(&str, f64)> = pairs.iter().map(|p| (p.0.as_str(), p.1)).collect();
        match k {
            0 => y.simplify_for_in_place(ps[0]),
            1 => y = y.clone().simplify_for(ps[0]),
            2 => y.simplify_for_multiple_in_place(&ps),
            _ => y = y.clone().simplify_for_multiple(&ps),
        }
        log.push(format!("{ps:?}"));
        for p in &pairs {
            left.remove(&p.0);
        }
        let yv: BTreeSet<String> = y.vars.iter().map(|s| s.to_string()).collect();
        if !yv.is_subset(&left) {
            return Err(format!("after simplifying for {log:?}: {y} reports {yv:?}, at most {left:?} can remain"));
        }
        vars_exact(&y, r).map_err(|e| format!("after simplifying for {log:?}: {e}"))?;
    }
    Ok(if fv.len() > 1 { Out::Ok } else { Out::Trivial })
}

fn c06(run: &mut Run) {
    let mut r = Rng::new(run.seed, 106);
    for _ in 0..50_000 * run.scale {
        let (s, c) = gen_case(&mut r, 3, false);
        let k = r.next();
        run.case(desc(&s, &c), || c06_one(&s, &c, &mut Rng::new(k, 7)));
    }
    wide(run, |s, c| c06_one(s, c, &mut Rng::new(5, 5)));
}

/* ------------------------------------------------------------ C07, C08 */

fn c07_one(s: &str, c: &Ctx, r: &mut Rng) -> Result<Out, String> {
    let Ok(t) = rf::parse(s, c, PEJ) else { return Ok(Out::Skip) };
    let p = Parser::new_with_ctx(build(c));
    let Ok(x) = p.parse(s) else { return Ok(Out::Skip) };
    let fv = t.free();
    let xv: BTreeSet<String> = x.vars.iter().map(|s| s.to_string()).collect();
    if !xv.is_subset(&fv) {
        return Err(format!("{x} uses {xv:?}, the expression only has {fv:?}"));
    }
    let mut n = 0;
    for i in 0..6 {
        let env = env_for(&fv, r, i > 1);
        let got = x.eval(&hm(&env)).map_err(|e| format!("evaluation with all variables failed: {e}"))?;
        match agrees(&t, &env, got) {
            Some(true) => n += 1,
            Some(false) => {
                return Err(format!("{x} evaluates to {got:?} at {env:?}; unoptimised value {:?}", t.eval(&env).0))
            }
            None => {}
        }
    }
    Ok(if n == 0 {
        Out::Skip
    } else if t.size() > 2 && !fv.is_empty() {
        Out::Ok
    } else {
        Out::Trivial
    })
}

fn c07(run: &mut Run) {
    let mut r = Rng::new(run.seed, 107);
    let none = Ctx::new();
    // two-operand shapes around every rule, exhaustively over small operands
    let atoms = ["0", "1", "2", "x", "y", "(-x)", "(-y)", "(-1)", "(-0)", "0.5", "(x*y)", "(y*x)", "(x+y)", "(y+x)", "(x-y)", "(y-x)", "(-(x+y))", "x!", "sin(x)", "(-sin(x))", "max(x,y)", "(x/y)", "(x^2)", "(x^y)", "(y^x)", "(+x)", "pi", "(1/0)", "3"];
    for a in atoms {
        for b in atoms {
            for o in ["+", "-", "*", "/", "%", "^"] {
                let s = format!("{a}{o}{b}");
                run.case(desc(&s, &none), || c07_one(&s, &none, &mut Rng::new(9, 9)));
                for w in ["z*(@)", "(@)-z", "z/(@)", "(@)^2", "(@)+(@)", "-(@)", "(@)!"] {
                    let s = w.replace('@', &s);
                    run.case(desc(&s, &none), || c07_one(&s, &none, &mut Rng::new(9, 9)));
                }
            }
        }
        if run.done() {
            return;
        }
    }
    for _ in 0..60_000 * run.scale {
        let c = if r.chance(2, 3) { Ctx::new() } else { context(&mut r) };
        let g = ExprGen { vars: &["x", "y", "z"], funs: funs(&c), sloppy: false, closed: false, small: r.chance(2, 3) };
        let d = r.below(4);
        let s = if r.chance(2, 3) { rule_expr(&mut r, &g, d) } else { g.expr(&mut r, d) };
        let k = r.next();
        run.case(desc(&s, &c), || c07_one(&s, &c, &mut Rng::new(k, 7)));
    }
}

fn c08_one(s: &str, c: &Ctx) -> Result<Out, String> {
    let want = rf::parse(s, c, PEJ);
    let p = Parser::new_with_ctx(build(c));
    let got = p.parse(s);
    match (&want, &got) {
        (Err(_), Err(_)) => return Ok(Out::Trivial),
        (Ok(_), Err(e)) => return Err(format!("rejected with `{e}` in this configuration")),
        (Err(_), Ok(x)) => return Err(format!("accepted as {x} in this configuration")),
        _ => {}
    }
    let (t, x) = (want.unwrap(), got.unwrap());
    if !t.closed() {
        return Ok(Out::Trivial);
    }
    let v = x.eval_no_vars().map_err(|e| format!("constant expression does not evaluate: {e}"))?;
    if !x.vars.is_empty() {
        return Err(format!("constant expression with variables {:?}", x.vars));
    }
    if agrees(&t, &Env::new(), v) == Some(false) {
        return Err(format!("evaluates to {v:?} (bits {:#x}), expected {:?}", v.to_bits(), t.eval(&Env::new()).0));
    }
    if OPT && x.to_string() != format!("{v}") {
        return Err(format!("not folded to a number: {x}"));
    }
    Ok(if t.size() > 1 { Out::Ok } else { Out::Trivial })
}

fn c08(run: &mut Run) {
    let mut r = Rng::new(run.seed, 108);
    let none = Ctx::new();
    let atoms = ["0", "1", "2", "(-1)", "(-0)", "0.5", "(1/0)", "(-1/0)", "(0/0)", "1e308", "3", "171", "5e-324", "(-2.5)", "0.1", "pi", "e", "170"];
    for a in atoms {
        for b in atoms {
            for o in ["+", "-", "*", "/", "%", "^"] {
                for w in ["@", "1/(@)", "(@)!", "-(@)", "2*(@)", "(@)-(@)", "(@)^0.5", "max(@,1)", "0+(@)", "0*(@)"] {
                    let s = w.replace('@', &format!("{a}{o}{b}"));
                    run.case(desc(&s, &none), || c08_one(&s, &none));
                }
            }
        }
    }
    for (n, k) in rf::BUILTINS {
        for a in atoms {
            for b in atoms {
                let s = match k {
                    Some(1) => format!("{n}({a})"),
                    Some(_) => format!("{n}({a},{b})"),
                    None => format!("{n}({a},{b},{a})"),
                };
                run.case(desc(&s, &none), || c08_one(&s, &none));
            }
        }
    }
    for _ in 0..60_000 * run.scale {
        let c = if r.chance(2, 3) { Ctx::new() } else { context(&mut r) };
        let consts: Vec<&'static str> = c.iter().filter(|(_, s)| matches!(s, Sym::Const(_))).map(|(n, _)| *n).collect();
        let closed = r.chance(3, 4);
        let g = ExprGen { vars: if consts.is_empty() { &["x", "y"] } else { &consts }, funs: funs(&c), sloppy: r.chance(1, 4), closed: closed && consts.is_empty(), small: r.chance(1, 2) };
        let d = r.below(4);
        let mut s = if r.chance(1, 3) { rule_expr(&mut r, &g, d) } else { g.expr(&mut r, d) };
        if r.chance(1, 8) {
            s = mutate(&mut r, &s);
        }
        run.case(desc(&s, &c), || c08_one(&s, &c));
    }
    // acceptance after folded sub-expressions
    let left = ["2", "(2)", "2!", "(1+2)", "1+2", "2*3", "2^3", "-2", "(-2)", "sin(1)", "pi", "x", "x+2", "x*2", "2x", "(x)", "0*x", "x^0", "x-x", "0", "1*x"];
    let right = ["3", " 3", "x", " x", "(3)", "!", "!!", "sin(2)", ".5", " .5", "pi", "-3", "e5", " e5", "_", "X", "!3", "! 3", "^2 3", "+1 2"];
    for a in left {
        for b in right {
            for w in ["@", "(@)", "1+@", "@+1", "2*@", "@^2", "-@", "max(@,1)", "x@"] {
                let s = w.replace('@', &format!("{a}{b}"));
                run.case(desc(&s, &none), || c08_one(&s, &none));
            }
        }
    }
}

/* ------------------------------------------------------------ C09 */

type BindOut = Result<f64, String>;

/// Binds through the k-th function; the outer error is the bind error.
fn bind_with(x: &Xprs, how: usize, names: &[&str], vals: &[f64]) -> Result<BindOut, String> {
    let x = x.clone();
    macro_rules! go {
        ($m:ident, $($i:tt),*) => {
            match x.$m($(names[$i]),*) {
                Ok(f) => Ok(Ok(f($(vals[$i]),*))),
                Err(e) => Err(e.to_string()),
            }
        };
    }
    macro_rules! arr {
        ($n:tt) => {{
            let ns: [&str; $n] = names.try_into().unwrap();
            let vs: [f64; $n] = vals.try_into().unwrap();
            match x.bind_n(ns) {
                Ok(f) => Ok(Ok(f(vs))),
                Err(e) => Err(e.to_string()),
            }
        }};
    }
    match (how, names.len()) {
        (0, 1) => go!(bind, 0),
        (0, 2) => go!(bind2, 0, 1),
        (0, 3) => go!(bind3, 0, 1, 2),
        (0, 4) => go!(bind4, 0, 1, 2, 3),
        (0, 5) => go!(bind5, 0, 1, 2, 3, 4),
        (0, 6) => go!(bind6, 0, 1, 2, 3, 4, 5),
        (0, 7) => go!(bind7, 0, 1, 2, 3, 4, 5, 6),
        (0, 8) => go!(bind8, 0, 1, 2, 3, 4, 5, 6, 7),
        (0, 9) => go!(bind9, 0, 1, 2, 3, 4, 5, 6, 7, 8),
        (1, 0) => arr!(0),
        (1, 1) => arr!(1),
        (1, 2) => arr!(2),
        (1, 3) => arr!(3),
        (1, 4) => arr!(4),
        (1, 5) => arr!(5),
        (1, 6) => arr!(6),
        (1, 7) => arr!(7),
        (1, 8) => arr!(8),
        (1, 9) => arr!(9),
        (1, 10) => arr!(10),
        (1, 11) => arr!(11),
        (1, 12) => arr!(12),
        (1, 16) => arr!(16),
        (1, 17) => arr!(17),
        (1, 31) => arr!(31),
        (1, 33) => arr!(33),
        (1, 65) => arr!(65),
        (1, 129) => arr!(129),
        (1, 257) => arr!(257),
        _ => match x.bind_n_runtime(names) {
            Ok(f) => Ok(f(vals).map_err(|e| e.to_string())),
            Err(e) => Err(e.to_string()),
        },
    }
}

fn c09_one(x: &Xprs, how: usize, names: &[&str], vals: &[f64]) -> Result<Out, String> {
    let xv: BTreeSet<&str> = x.vars.iter().copied().collect();
    let given: BTreeSet<&str> = names.iter().copied().collect();
    let missing: BTreeSet<&str> = xv.difference(&given).copied().collect();
    match bind_with(x, how, names, vals) {
        Err(m) => {
            if missing.is_empty() {
                return Err(format!("binding {names:?} of {x} failed: `{m}`"));
            }
            let (Some(a), Some(b)) = (m.find('\''), m.rfind('\'')) else {
                return Err(format!("error `{m}` names nothing, missing {missing:?}"));
            };
            let listed: Vec<&str> = if b > a { m[a + 1..b].split(", ").collect() } else { vec![] };
            let set: BTreeSet<&str> = listed.iter().copied().collect();
            if set != missing || listed.len() != missing.len() {
                return Err(format!("error `{m}` lists {listed:?}, missing {missing:?}"));
            }
        }
        Ok(res) => {
            if !missing.is_empty() {
                return Err(format!("binding {names:?} of {x} succeeded although {missing:?} is missing"));
            }
            let mut env: HashMap<&str, f64> = HashMap::new();
            for (n, v) in names.iter().zip(vals) {
                env.insert(n, *v);
            }
            let want = x.eval(&env).map_err(|e| e.to_string());
            match (&want, &res) {
                (Ok(a), Ok(b)) if same(*a, *b) => {}
                (Err(a), Err(b)) if xv.iter().filter(|v| !env.contains_key(*v)).any(|v| b.contains(&format!("'{v}'"))) => {
                    let _ = a;
                }
                _ => return Err(format!("bound {names:?} of {x} applied to {vals:?} gives {res:?}, evaluation gives {want:?}")),
            }
        }
    }
    Ok(if names.len() > 1 { Out::Ok } else { Out::Trivial })
}

fn c09(run: &mut Run) {
    let mut r = Rng::new(run.seed, 109);
    let pool: Vec<&str> = ["x", "y", "z", "a", "b", "c", "u", "v", "w", "q'", "X", "x1"].into_iter().chain(dict().names.iter().copied()).collect();
    for i in 0..60_000 * run.scale {
        let k = r.below(13);
        // an order-sensitive expression over some names
        let mut used: Vec<&str> = vec![];
        let nv = if r.chance(1, 5) { r.below(4) } else { k.min(9) };
        for _ in 0..nv {
            used.push(r.pick(&pool));
        }
        let mut s = String::from("0.5");
        for (j, u) in used.iter().enumerate() {
            s.push_str(&format!(" {} {}{}", r.pick(&["+", "-", "*"]), ["2*", "3*", "", "5*"][j % 4], u));
        }
        let mut names: Vec<&str> = if r.chance(3, 4) {
            let mut d: Vec<&str> = used.clone();
            while d.len() < k {
                d.push(r.pick(&pool));
            }
            d.truncate(k);
            d
        } else {
            (0..k).map(|_| *r.pick(&pool)).collect()
        };
        for j in (1..names.len()).rev() {
            let l = r.below(j + 1);
            names.swap(j, l);
        }
        let how = i as usize % 3;
        let m = if how == 2 && r.chance(1, 3) { r.below(14) } else { names.len() };
        let vals: Vec<f64> = (0..m).map(|_| if r.chance(1, 6) { any_value(&mut r) } else { generic_value(&mut r) }).collect();
        if how == 0 && !(1..=9).contains(&names.len()) {
            continue;
        }
        run.case(format!("input={s:?} how={} names={names:?} values={vals:?}", ["bindN", "bind_n", "bind_n_runtime"][how]), || {
            let x = Xprs::try_from(s.as_str()).map_err(|e| format!("rejected: {e}"))?;
            c09_one(&x, how, &names, &vals)
        });
    }
    // exact argument order of every arity: distinct weights
    for k in 1..=12usize {
        let names: Vec<&str> = pool[..k].to_vec();
        let s: String = names.iter().enumerate().map(|(i, n)| format!("{n}*{}", 10u64.pow(i as u32))).collect::<Vec<_>>().join("+");
        let vals: Vec<f64> = (0..k).map(|i| (i + 1) as f64 % 10.0).collect();
        for how in 0..3 {
            if how == 0 && k > 9 {
                continue;
            }
            run.case(format!("input={s:?} how={how} names={names:?} values={vals:?}"), || {
                let x = Xprs::try_from(s.as_str()).map_err(|e| format!("rejected: {e}"))?;
                let want: f64 = vals.iter().enumerate().map(|(i, v)| v * 10f64.powi(i as i32)).sum();
                match bind_with(&x, how, &names, &vals) {
                    Ok(Ok(v)) if v == want => c09_one(&x, how, &names, &vals),
                    o => Err(format!("gives {o:?}, expected {want:?}")),
                }
            });
        }
    }
    // many missing variables
    for n in sizes().into_iter().filter(|n| *n > 0).chain([254, 258, 511, 513]) {
        let vs: Vec<String> = (0..n).map(|i| format!("v{i}")).collect();
        let s = vs.join("+");
        for how in 0..3 {
            for names in [vec!["zz"], vec!["v0"], vec!["v0", "v1", "zz"]] {
                run.case(format!("input=v0+..+v{} how={how} names={names:?}", n - 1), || {
                    let x = Xprs::try_from(s.as_str()).map_err(|e| format!("rejected: {e}"))?;
                    c09_one(&x, how, &names, &vec![1.5; names.len()]).map_err(|e| e.chars().take(400).collect())
                });
            }
        }
        let names: Vec<&str> = vs.iter().map(String::as_str).collect();
        let vals: Vec<f64> = (0..n).map(|i| i as f64).collect();
        for how in [1, 2] {
            run.case(format!("input=v0+..+v{} bind_n{} of all", n - 1, ["", "_runtime"][how - 1]), || {
                let x = Xprs::try_from(s.as_str()).map_err(|e| format!("rejected: {e}"))?;
                c09_one(&x, how, &names, &vals).map_err(|e| e.chars().take(400).collect())
            });
        }
    }
    for _ in 0..10_000 * run.scale {
        let (s, c) = gen_case(&mut r, 2, false);
        let p = Parser::new_with_ctx(build(&c));
        let mut rr = Rng::new(r.next(), 1);
        run.case(desc(&s, &c), || {
            let Ok(x) = p.parse(&s) else { return Ok(Out::Skip) };
            let mut names: Vec<&str> = x.vars.iter().copied().collect();
            names.sort();
            if rr.chance(1, 4) {
                names.pop();
            }
            if rr.chance(1, 4) {
                names.push(*rr.pick(&pool));
            }
            let vals: Vec<f64> = names.iter().map(|_| any_value(&mut rr)).collect();
            let how = rr.below(3);
            if names.len() > 9 || (how == 0 && names.is_empty()) {
                return Ok(Out::Skip);
            }
            c09_one(&x, how, &names, &vals)
        });
    }
}

/* ------------------------------------------------------------ C10 */

fn c10_one(v: f64) -> Result<Out, String> {
    let want = rf::factorial(v);
    for s in ["x!", "factorial(x)", "(x)!", "x !"] {
        let x = Xprs::try_from(s).map_err(|e| format!("{s} rejected: {e}"))?;
        let got = x.eval(&[("x", v)].into()).map_err(|e| e.to_string())?;
        let unc = x.eval_unchecked(&[("x", v)].into());
        if !same(got, want) || !same(unc, want) {
            return Err(format!("{s} at {v:?} gives {got:?}/{unc:?}, expected {want:?}"));
        }
        let y = x.simplify_for(("x", v));
        let got = y.eval_no_vars().map_err(|e| e.to_string())?;
        if !same(got, want) {
            return Err(format!("{s} simplified for {v:?} gives {got:?}, expected {want:?}"));
        }
    }
    // as a constant in the text and in the context
    let mut ctx = Context::default();
    ctx.set_var("k", v);
    let p = Parser::new_with_ctx(ctx);
    for s in ["k!", "factorial(k)"] {
        let got = p.parse(s).map_err(|e| e.to_string())?.eval_no_vars().map_err(|e| e.to_string())?;
        if !same(got, want) {
            return Err(format!("{s} with constant k = {v:?} gives {got:?}, expected {want:?}"));
        }
    }
    if v.is_finite() && v.is_sign_positive() {
        let s = format!("{v:?}!");
        let got = Xprs::try_from(s.as_str()).map_err(|e| format!("{s} rejected: {e}"))?.eval_no_vars().map_err(|e| e.to_string())?;
        if !same(got, want) {
            return Err(format!("{s} gives {got:?}, expected {want:?}"));
        }
    }
    Ok(if v.is_finite() { Out::Ok } else { Out::Trivial })
}

fn c10(run: &mut Run) {
    let mut r = Rng::new(run.seed, 110);
    // inputs a verifier's counterexample names
    for b in std::env::var("VERIF_INPUTS").unwrap_or_default().split(',').filter_map(|x| u64::from_str_radix(x, 16).ok()) {
        let v = f64::from_bits(b);
        run.case(format!("x={v:?} (from the verifier's counterexample)"), || c10_one(v));
    }
    for i in -300..=400i64 {
        let v = i as f64;
        for k in [-2i64, -1, 0, 1, 2] {
            let w = f64::from_bits((v.to_bits() as i64).wrapping_add(k) as u64);
            run.case(format!("x={w:?}"), || c10_one(w));
        }
        for f in [0.5, 0.25, 1e-9, 0.999999999] {
            run.case(format!("x={:?}", v + f), || c10_one(v + f));
        }
    }
    for v in dict().nums.iter().flat_map(|v| [*v, v + 1.0, v - 1.0, v + 0.5, v.next_up(), v.next_down(), 1.0 / v]) {
        run.case(format!("x={v:?}"), || c10_one(v));
        run.case(format!("x={:?}", -v), || c10_one(-v));
    }
    for v in SPECIAL {
        run.case(format!("x={v:?}"), || c10_one(*v));
        run.case(format!("x={:?}", -v), || c10_one(-*v));
    }
    for e in 0..64 {
        for k in [-1.0, 0.0, 1.0, 0.5] {
            let v = 2f64.powi(e) + k;
            run.case(format!("x={v:?}"), || c10_one(v));
            run.case(format!("x={:?}", -v), || c10_one(-v));
        }
    }
    for _ in 0..20_000 * run.scale {
        let v = match r.below(3) {
            0 => f64::from_bits(r.next()),
            1 => r.below(180) as f64 + (r.below(3) as f64) * generic_value(&mut r) * 1e-10,
            _ => generic_value(&mut r) * 100.0,
        };
        run.case(format!("x={v:?}"), || c10_one(v));
    }
}

/* ------------------------------------------------------------ C11 */

fn c11(run: &mut Run) {
    let mut r = Rng::new(run.seed, 111);
    let one = |name: &str, args: &[f64]| -> Result<Out, String> {
        let names: Vec<String> = (0..args.len()).map(|i| format!("x{i}")).collect();
        let s = format!("{name}({})", names.join(","));
        let x = Xprs::try_from(s.as_str()).map_err(|e| format!("{s} rejected: {e}"))?;
        let env: HashMap<&str, f64> = names.iter().map(String::as_str).zip(args.iter().copied()).collect();
        let got = x.eval(&env).map_err(|e| e.to_string())?;
        let want = rf::call_builtin(name, args);
        let z = |neg: bool| args.iter().any(|x| *x == 0.0 && x.is_sign_negative() == neg);
        let ok = if matches!(name, "sum" | "mean" | "min" | "max") {
            numeq(got, want) && (!args.is_empty() || got == want || got.is_nan()) || (z(true) && z(false) && got == want)
        } else {
            same(got, want)
        };
        if !ok {
            return Err(format!("{name}{args:?} gives {got:?}, expected {want:?}"));
        }
        Ok(Out::Ok)
    };
    let points: Vec<f64> = SPECIAL.iter().copied().chain([0.25, 0.75, 0.9, -0.9, 2.5, 3.5, -1.5, -2.5, 4.7, 8.0, 27.0, 100.0, 1000.0, 0.001, 1e15, 4503599627370497.5, 0.49999999999999994, 20.0, 12.5, -7.7]).collect();
    for (n, k) in rf::BUILTINS {
        match k {
            Some(1) => {
                for a in &points {
                    run.case(format!("{n}({a:?})"), || one(n, &[*a]));
                }
                for _ in 0..300 * run.scale {
                    let v = if r.chance(1, 2) { any_value(&mut r) } else { generic_value(&mut r) * 8.0 - 8.0 };
                    run.case(format!("{n}({v:?})"), || one(n, &[v]));
                }
            }
            Some(2) => {
                for a in &points {
                    for b in &points {
                        run.case(format!("{n}({a:?},{b:?})"), || one(n, &[*a, *b]));
                    }
                }
            }
            _ => {
                for len in 0..=12usize {
                    for _ in 0..120 * run.scale {
                        let v: Vec<f64> = (0..len).map(|_| if r.chance(1, 5) { any_value(&mut r) } else { generic_value(&mut r) * 6.0 - 7.0 }).collect();
                        run.case(format!("{n}{v:?}"), || one(n, &v));
                    }
                }
                for len in sizes() {
                    let big: Vec<f64> = (0..len).map(|i| (i as f64 * 0.7).sin()).collect();
                    run.case(format!("{n} of sin(0.7 i) for i below {len}"), || one(n, &big));
                    let big: Vec<f64> = (0..len).map(|i| ((i * 7919) % 1013) as f64).collect();
                    run.case(format!("{n} of (7919 i) % 1013 for i below {len}"), || one(n, &big));
                }
            }
        }
        // declared arity
        for m in 0..5usize {
            let s = format!("{n}({})", vec!["1"; m].join(","));
            run.case(format!("input={s:?}"), || {
                let ok = Xprs::try_from(s.as_str()).is_ok();
                let want = k.map_or(true, |k| usize::from(k) == m);
                if ok == want { Ok(Out::Ok) } else { Err(format!("accepted: {ok}, expected {want}")) }
            });
        }
    }
    for (n, v) in [("pi", std::f64::consts::PI), ("e", std::f64::consts::E)] {
        run.case(format!("input={n:?}"), || match Xprs::try_from(n).map(|x| x.eval_no_vars()) {
            Ok(Ok(g)) if same(g, v) => Ok(Out::Ok),
            o => Err(format!("gives {o:?}, expected {v:?}")),
        });
    }
    let mut names: BTreeSet<String> = NEAR.iter().map(|s| s.to_string()).collect();
    let al: Vec<char> = ('a'..='z').collect();
    for a in &al {
        for b in &al {
            names.insert(format!("{a}{b}"));
            for c in &al {
                names.insert(format!("{a}{b}{c}"));
            }
        }
    }
    for (n, _) in rf::BUILTINS {
        for ch in ['a', 'h', 's', '1', '2', '_', '\'', 'A', 'n', '0'] {
            names.insert(format!("{n}{ch}"));
            if ch.is_ascii_alphabetic() {
                names.insert(format!("{ch}{n}"));
            }
        }
        let up: String = n.to_uppercase();
        names.insert(up);
        let mut cap: Vec<char> = n.chars().collect();
        cap[0] = cap[0].to_ascii_uppercase();
        names.insert(cap.into_iter().collect());
        for i in 0..n.len() {
            let mut t = n.to_string();
            t.remove(i);
            names.insert(t);
            for c in ['a', 'o', 't', 'n', 'x'] {
                let mut t: Vec<char> = n.chars().collect();
                t[i] = c;
                names.insert(t.into_iter().collect());
            }
        }
    }
    names.extend(dict().names.iter().map(|n| n.to_string()));
    names.retain(|n| !n.is_empty() && n.chars().next().unwrap().is_ascii_alphabetic() && !rf::BUILTINS.iter().any(|b| b.0 == n) && n != "pi" && n != "e");
    for n in &names {
        run.case(format!("variable {n:?}"), || {
            let x = Xprs::try_from(n.as_str()).map_err(|e| format!("rejected: {e}"))?;
            if x.vars.len() != 1 || !x.vars.contains(n.as_str()) {
                return Err(format!("is not a variable: {x} {:?}", x.vars));
            }
            match x.eval(&[(n.as_str(), 4.5)].into()) {
                Ok(v) if v == 4.5 => Ok(Out::Ok),
                o => Err(format!("evaluates to {o:?}, expected 4.5")),
            }
        });
    }
}

/* ------------------------------------------------------------ C12 */

fn c12_one(r: &mut Rng, log: &mut Vec<String>) -> Result<Out, String> {
    let mut names: Vec<&'static str> = vec!["x", "y", "f", "g", "sin", "pi", "k'", "e", "max", "Q"];
    names.extend(&dict().names);
    if r.chance(1, 6) {
        // no identifiers: they never denote what another name denotes
        names.extend([" f", "f ", "F", "x ", "\tx", "", "é", "2x", "f(", "f'", "f_", "_f", "x y", "+", "-x", "f\0", "xf", "ff", "MAX", "Pi"]);
    }
    let mut model = Ctx::new();
    let mut expected: Option<BTreeSet<&'static str>> = None;
    let mut ctx: Context<'static> = Context::default();
    let n = 1 + r.below(10);
    for _ in 0..n {
        let name = *r.pick(&names);
        match r.below(10) {
            0 | 1 => {
                let v = (r.below(2000) as f64) * 0.25 - 100.0;
                log.push(format!("{name}={v}"));
                if r.chance(1, 2) {
                    ctx.set_var(name, v);
                } else {
                    ctx = ctx.with_var(name, v);
                }
                model.insert(name, Sym::Const(v));
            }
            2..=4 => {
                let a = if r.chance(1, 4) { None } else { Some(r.below(4) as u8) };
                let f = *r.pick(IMPLS);
                log.push(format!("{name}:fn/{a:?}"));
                let func = if r.chance(1, 3) { Function::new_dyn(name, f, a) } else { Function::new_static(name, f, a) };
                if r.chance(1, 2) {
                    ctx.set_fn(func);
                } else {
                    ctx = ctx.with_fn(func);
                }
                model.insert(name, Sym::Fun(name, a, f));
            }
            5 => {
                let v = r.below(50) as u32;
                log.push(format!("{name}={v}u32"));
                ctx = ctx.with_var(name, v);
                model.insert(name, Sym::Const(f64::from(v)));
            }
            6 => {
                let m = context(r);
                log.push(format!("symbols:=[{}]", ctx_text(&m)));
                ctx = ctx.with_symbols(m.iter().map(|(k, s)| (*k, symbol(s))).collect());
                model = m;
            }
            7 | 8 => {
                let set: BTreeSet<&'static str> = (0..r.below(7)).map(|_| *r.pick(&["x", "y", "z", "a", "b", "X"])).collect();
                log.push(format!("expected:={set:?}"));
                let hs: HashSet<&'static str> = set.iter().copied().collect();
                if r.chance(1, 2) {
                    ctx.set_expected_vars(hs);
                } else {
                    ctx = ctx.with_expected_vars(hs);
                }
                expected = Some(set);
            }
            _ => {
                log.push("clone".into());
                let c2 = ctx.clone();
                ctx.set_var("x", -1.0);
                ctx = c2;
            }
        }
        for n in names.iter().copied().chain(model.keys().copied()).chain(["zz", "", "X"]) {
            let got = ctx.get(n);
            let ok = match (model.get(n), got) {
                (None, None) => true,
                (Some(Sym::Const(v)), Some(Symbol::Variable(w))) => same(*v, *w),
                (Some(Sym::Fun(n, a, f)), Some(Symbol::Function(g))) => {
                    g.name == *n && g.nb_args == *a && {
                        let args = [0.5, 1.25, 3.0];
                        same((g.func)(&args), f(&args))
                    }
                }
                _ => false,
            };
            if !ok {
                return Err(format!("get({n:?}) is {got:?}, expected {:?}", model.get(n)));
            }
        }
        let ge: Option<BTreeSet<&str>> = ctx.get_expected_vars().map(|s| s.iter().copied().collect());
        if ge != expected.as_ref().map(|s| s.iter().copied().collect()) {
            return Err(format!("expected variables are {ge:?}, should be {expected:?}"));
        }
    }
    // parsing with it
    let mut parser = Parser::new_with_ctx(ctx.clone());
    for _ in 0..3 {
        let g = ExprGen { vars: &["x", "y", "z", "a", "X"], funs: funs(&model), sloppy: false, closed: false, small: false };
        let d = r.below(2);
        let s = g.expr(r, d);
        log.push(format!("parse {s:?}"));
        if r.chance(1, 4) {
            // through the mutable accessor
            let v = r.below(9) as f64;
            parser.ctx_mut().set_var("y", v);
            model.insert("y", Sym::Const(v));
            log.push(format!("ctx_mut y={v}"));
        }
        let before = format!("{:?}", sorted_ctx(parser.ctx(), &names));
        let free = Parser::new_with_ctx(build(&model));
        let bare = free.parse(&s);
        let got = parser.parse(&s);
        if before != format!("{:?}", sorted_ctx(parser.ctx(), &names)) {
            return Err("parsing changed the context".into());
        }
        match (bare, got) {
            (Err(_), Err(e)) => {
                if e.to_string().contains("not previously declared") {
                    return Err(format!("undeclared variable reported for an invalid input: {e}"));
                }
            }
            (Err(e), Ok(_)) => return Err(format!("accepted, but rejected without expected variables: {e}")),
            (Ok(x), got) => {
                let xv: BTreeSet<&str> = x.vars.iter().copied().collect();
                let bad: BTreeSet<&str> = match &expected {
                    None => BTreeSet::new(),
                    Some(s) => xv.iter().copied().filter(|v| !s.contains(v)).collect(),
                };
                match got {
                    Ok(y) => {
                        if !bad.is_empty() {
                            return Err(format!("accepted although {bad:?} is not among {expected:?}"));
                        }
                        if y.to_string() != x.to_string() || y.vars != x.vars {
                            return Err(format!("parsed to {y}, expected {x}"));
                        }
                        // values: the context's meaning
                        if let Ok(t) = rf::parse(&s, &model, PEJ) {
                            let env = env_for(&t.free(), r, false);
                            if let Ok(v) = y.eval(&hm(&env)) {
                                if agrees(&t, &env, v) == Some(false) {
                                    return Err(format!("{y} evaluates to {v:?} at {env:?}, expected {:?}", t.eval(&env).0));
                                }
                            }
                        }
                    }
                    Err(e) => {
                        let m = e.to_string();
                        if bad.is_empty() {
                            return Err(format!("rejected with `{m}` although {xv:?} is within {expected:?}"));
                        }
                        if !bad.iter().any(|v| m.contains(&format!("`{v}`"))) {
                            return Err(format!("error `{m}` does not name one of {bad:?}"));
                        }
                        let h = e.help().map(|h| h.to_string()).unwrap_or_default();
                        for v in expected.iter().flatten() {
                            if !h.contains(&format!("`{v}`")) {
                                return Err(format!("help `{h}` does not list {v:?}"));
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(Out::Ok)
}

fn sorted_ctx(c: &Context, names: &[&'static str]) -> (BTreeMap<String, String>, Option<BTreeSet<String>>) {
    (
        names.iter().filter_map(|n| c.get(n).map(|s| (n.to_string(), format!("{s:?}")))).collect(),
        c.get_expected_vars().map(|s| s.iter().map(|s| s.to_string()).collect()),
    )
}

fn c12(run: &mut Run) {
    let mut r = Rng::new(run.seed, 112);
    for _ in 0..30_000 * run.scale {
        let k = r.next();
        let mut log = vec![];
        let mut res = Ok(Out::Skip);
        let p = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            res = c12_one(&mut Rng::new(k, 12), &mut log);
        }));
        let d = format!("history={}", log.join("; "));
        run.case(d, || {
            if let Err(p) = p {
                std::panic::resume_unwind(p);
            }
            res
        });
    }
}

/* ------------------------------------------------------------ C13 */

fn between(m: &str) -> Option<&str> {
    let a = m.find('`')?;
    let b = m.rfind('`')?;
    (b > a).then(|| &m[a + 1..b])
}

fn c13_one(input: &str, c: &Ctx) -> Result<Out, String> {
    let p = Parser::new_with_ctx(build(c));
    let Err(e) = p.parse(input) else { return Ok(Out::Skip) };
    let m = e.to_string();
    let (o, l) = span_of(&e).ok_or("error without label")?;
    if m.starts_with("Unexpected token") || m.starts_with("Illegal character") {
        let ch = between(&m).ok_or("no character reported")?;
        let at = input.get(o..).and_then(|s| s.chars().next()).map(String::from);
        if at.as_deref() != Some(ch) {
            return Err(format!("`{m}` at {o}, where the input has {at:?}"));
        }
        if m.starts_with("Illegal") && matches!(ch, "+" | "-" | "(" | ")") {
            return Err(format!("`{m}` but {ch} belongs to the language"));
        }
        return Ok(Out::Ok);
    }
    if m.starts_with("Malformed number") {
        let t = between(&m).ok_or("no text reported")?;
        if input.get(o..o + l) != Some(t) {
            return Err(format!("`{m}` spans {:?}", input.get(o..o + l)));
        }
        let tok = rf::tokenize(input);
        if !tok.iter().any(|(k, p)| *p == o && matches!(k, Tok::Num(s, None) if s == t)) {
            return Err(format!("`{m}` at {o} is not a malformed literal of the input"));
        }
        return Ok(Out::Ok);
    }
    if m.starts_with("Too few") || m.starts_with("Too many") {
        let nums: Vec<usize> = m.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect();
        let [want, got] = nums[..] else { return Err(format!("`{m}` has no counts")) };
        if m.starts_with("Too few") != (got < want) || got == want {
            return Err(format!("`{m}` is inconsistent"));
        }
        let toks = rf::tokenize(input);
        let Some(i) = toks.iter().position(|(_, p)| *p == o) else {
            return Err(format!("`{m}` spans no token start ({o})"));
        };
        let Tok::Id(name) = &toks[i].0 else { return Err(format!("`{m}` does not start at a name")) };
        let arity = match c.get(name.as_str()) {
            Some(Sym::Fun(_, a, _)) => *a,
            Some(Sym::Const(_)) => return Err(format!("`{m}` reported for a constant")),
            None => rf::BUILTINS.iter().find(|b| b.0 == name).and_then(|b| b.1),
        };
        if arity.map(usize::from) != Some(want) {
            return Err(format!("`{m}`: {name} takes {arity:?}"));
        }
        // count the arguments in the text
        let (mut depth, mut n, mut any) = (0usize, 0usize, false);
        for (t, _) in &toks[i + 1..] {
            match t {
                Tok::Open => {
                    any |= depth > 0;
                    depth += 1;
                }
                Tok::Close => {
                    depth -= 1;
                    if depth == 0 {
                        break;
                    }
                }
                Tok::Comma if depth == 1 => n += 1,
                _ => any = true,
            }
        }
        let real = if any { n + 1 } else { 0 };
        if real != got {
            return Err(format!("`{m}`: {real} arguments given"));
        }
        let h = e.help().map(|h| h.to_string()).unwrap_or_default();
        let diff = want.abs_diff(got);
        if !h.contains(&format!(" {diff} argument")) {
            return Err(format!("`{m}` with help `{h}`"));
        }
        return Ok(Out::Ok);
    }
    if m.starts_with("Unexpected end") {
        if !matches!(rf::parse(input, c, PEJ), Err(rf::Rej::End)) {
            return Err(format!("`{m}` although the input was not exhausted"));
        }
        return Ok(Out::Ok);
    }
    Ok(Out::Trivial)
}

fn c13(run: &mut Run) {
    let mut r = Rng::new(run.seed, 113);
    let none = Ctx::new();
    for len in 0..=4u32 {
        for n in 0..17u64.pow(len) {
            let s = nth_tokens(n, len as usize);
            run.case(desc(&s, &none), || c13_one(&s, &none));
        }
    }
    for len in 1..=4u32 {
        for n in 0..10u64.pow(len) {
            let s = nth_numeric(n, len as usize);
            run.case(desc(&s, &none), || c13_one(&s, &none));
            let s = format!("x + ({s})*2");
            run.case(desc(&s, &none), || c13_one(&s, &none));
        }
    }
    for _ in 0..60_000 * run.scale {
        let (s, c) = match r.below(3) {
            0 => (garbage(&mut r), if r.chance(1, 2) { context(&mut r) } else { none.clone() }),
            1 => {
                let c = context(&mut r);
                let g = ExprGen { vars: VARS, funs: funs(&c), sloppy: true, closed: false, small: false };
                let d = 1 + r.below(3);
                (g.expr(&mut r, d), c)
            }
            _ => {
                let (mut s, c) = gen_case(&mut r, 2, true);
                for _ in 0..1 + r.below(2) {
                    s = mutate(&mut r, &s);
                }
                (s, c)
            }
        };
        run.case(desc(&s, &c), || c13_one(&s, &c));
    }
    for k in 0..=255u16 {
        for m in [0, 1, k.saturating_sub(1), k + 1, k + 3, k + 256, 300] {
            let c: Ctx = [("f", Sym::Fun("f", Some(k as u8), u_f as rf::UserFn))].into_iter().collect();
            let s = format!("2 + f ( {} )", vec!["x"; m as usize].join(" , "));
            run.case(format!("f/{k} called with {m} arguments"), || c13_one(&s, &c));
        }
    }
    for ch in ['é', '×', '€', '𝕏', '\u{a0}', 'ß', '中', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\0', '\u{b}', '$', '@', '!', ')', ',', '_', '\''] {
        for w in ["@", "1@", "1+@", "x@", "x @", "(@", "(1@", "max(@", "max(1@", "max(1,@", "2@3", "@2", "sin(@)", "1 @ 2", "é@", "-@", "x!@", "sin@(1)", "max(1, (2@))", "max(min(1 @)"] {
            let s = w.replace('@', &ch.to_string());
            run.case(desc(&s, &none), || c13_one(&s, &none));
        }
    }
}

/* ------------------------------------------------------------ C14 */

fn c14_one(s: &str, c: &Ctx, r: &mut Rng, simp: bool) -> Result<Out, String> {
    let p = Parser::new_with_ctx(build(c));
    let Ok(mut x) = p.parse(s) else { return Ok(Out::Skip) };
    let mut how = String::new();
    if simp {
        let mut vs: Vec<&str> = x.vars.iter().copied().collect();
        vs.sort();
        if let Some(v) = vs.first() {
            let val = if r.chance(1, 2) { generic_value(r) * if r.chance(1, 2) { -1.0 } else { 1.0 } } else if r.chance(1, 4) { any_value(r) } else { *r.pick(&[0.0, 1.0, -1.0, -2.0, 3.0, 1e-9, -1e22]) };
            how = format!(" simplified for {v}={val:?}");
            x = x.simplify_for((v, val));
        }
    }
    // `invert` is an alias of the built-in `recip`: its name denotes another function here
    if c.contains_key("recip") && s.contains("invert") {
        return Ok(Out::Skip);
    }
    let text = x.to_string();
    let toks = rf::tokenize(&text);
    if toks.iter().any(|(t, _)| matches!(t, Tok::Id(n) if (n == "NaN" || n == "inf") && !x.vars.contains(n.as_str()))) {
        return Ok(Out::Skip);
    }
    let fc: Ctx = c.iter().filter(|(_, s)| matches!(s, Sym::Fun(..))).map(|(n, s)| (*n, s.clone())).collect();
    if x.vars.iter().any(|v| fc.contains_key(v)) {
        return Ok(Out::Skip);
    }
    let p2 = Parser::new_with_ctx(build(&fc));
    let y = match p2.parse(&text) {
        Ok(y) => y,
        Err(e) => return Err(format!("displayed{how} as {text:?}, which is rejected: {e}")),
    };
    let xv: BTreeSet<String> = x.vars.iter().map(|s| s.to_string()).collect();
    let yv: BTreeSet<String> = y.vars.iter().map(|s| s.to_string()).collect();
    if !yv.is_subset(&xv) {
        return Err(format!("displayed{how} as {text:?}, parsed back with variables {yv:?} instead of {xv:?}"));
    }
    // the displayed text's own meaning, when the reference can read it
    let t = rf::parse(&text, &fc, PEJ);
    let mut n = 0;
    for i in 0..4 {
        let env = env_for(&xv, r, i > 1);
        let a = x.eval(&hm(&env)).map_err(|e| e.to_string())?;
        let b = y.eval(&hm(&env)).map_err(|e| e.to_string())?;
        if a.is_nan() {
            continue;
        }
        let good = t.as_ref().map_or(true, |t| t.eval(&env).1);
        if good {
            n += 1;
            if a != b {
                return Err(format!("displayed{how} as {text:?}, which evaluates to {b:?} instead of {a:?} at {env:?}"));
            }
        }
    }
    if !OPT && !simp && !text.contains("-0") && c.values().all(|s| matches!(s, Sym::Fun(..)) || matches!(s, Sym::Const(v) if *v > 0.0)) {
        let again = y.to_string();
        if again != text {
            return Err(format!("displayed as {text:?}, parsed back and displayed as {again:?}"));
        }
    }
    Ok(if n > 0 && toks.len() > 3 { Out::Ok } else { Out::Trivial })
}

fn c14(run: &mut Run) {
    let mut r = Rng::new(run.seed, 114);
    let none = Ctx::new();
    let un = ["x", "-x", "+x", "x!", "-x!", "(-x)!", "k", "k!", "(-k)", "2", "-2", "(-2)!", "sin(x)", "max(x,-y,k)", "f(x,y)", "v()", "(x+y)!", "1e22", "1e-9"];
    let c: Ctx = [
        ("k", Sym::Const(-2.0)),
        ("f", Sym::Fun("f", Some(2), u_f as rf::UserFn)),
        ("v", Sym::Fun("v", None, u_g as rf::UserFn)),
    ]
    .into_iter()
    .collect();
    for a in un {
        for o in ["+", "-", "*", "/", "^", "%", " "] {
            for b in un {
                for w in ["@", "-(@)", "(@)!", "z^(@)", "(@)^z", "z-(@)", "z/(@)", "(@)*z", "f(@,z)", "-@", "@!"] {
                    let s = w.replace('@', &format!("({a}){o}({b})"));
                    run.case(desc(&s, &c), || c14_one(&s, &c, &mut Rng::new(14, 14), false));
                    let s = w.replace('@', &format!("{a}{o}{b}"));
                    run.case(desc(&s, &c), || c14_one(&s, &c, &mut Rng::new(14, 14), w.len() % 2 == 0));
                }
            }
        }
    }
    let _ = none;
    for _ in 0..50_000 * run.scale {
        let (s, c) = gen_case(&mut r, 3, false);
        let k = r.next();
        let simp = r.chance(1, 2);
        run.case(desc(&s, &c), || c14_one(&s, &c, &mut Rng::new(k, 7), simp));
    }
}

/* ------------------------------------------------------------ C15 */

fn c15_one(s: &str, c: &Ctx, r: &mut Rng) -> Result<Out, String> {
    let Ok(t) = rf::parse(s, c, PEJ) else { return Ok(Out::Skip) };
    let p = Parser::new_with_ctx(build(c));
    let Ok(x) = p.parse(s) else { return Ok(Out::Skip) };
    let fv = t.free();
    // the variables, and near misses of them: these must not be touched
    let near = fv.iter().flat_map(|v| [v.to_uppercase(), v.to_lowercase(), format!("{v}_"), v[..v.len() - 1].to_string()]);
    let pool: Vec<String> = fv.iter().cloned().chain(fv.iter().cloned()).chain(near).chain(["nope".to_string()]).collect();
    let k = r.below(4);
    let count = if k < 2 { 1 } else if r.chance(1, 30) { 4 + r.below(40) } else { r.below(5) };
    let pairs: Vec<(String, f64)> = (0..count)
        .map(|_| {
            let v = match r.below(3) {
                0 => *r.pick(&[0.0, 1.0, -1.0, 2.0, -0.0]),
                1 => any_value(r),
                _ => generic_value(r),
            };
            (r.pick(&pool).clone(), v)
        })
        .collect();
    let ps: Vec<(&str, f64)> = pairs.iter().map(|p| (p.0.as_str(), p.1)).collect();
    let mut y = x.clone();
    match k {
        0 => y.simplify_for_in_place(ps[0]),
        1 => y = y.simplify_for(ps[0]),
        2 => y.simplify_for_multiple_in_place(&ps),
        _ => y = y.simplify_for_multiple(&ps),
    }
    // one at a time
    let mut z = x.clone();
    for q in &ps {
        z = z.simplify_for(*q);
    }
    if z.to_string() != y.to_string() {
        return Err(format!("simplifying for {ps:?} gives {y}, one at a time {z}"));
    }
    for q in &ps {
        if y.vars.contains(q.0) {
            return Err(format!("simplifying for {ps:?} leaves {} in {y}", q.0));
        }
    }
    let mut st = t.clone();
    for q in &ps {
        st = st.subst(q.0, q.1);
    }
    let left = st.free();
    let mut n = 0;
    for i in 0..4 {
        let env = env_for(&left, r, i > 1);
        let got = y
            .eval(&hm(&env))
            .map_err(|e| format!("simplified for {ps:?} to {y}, which needs more variables: {e}"))?;
        let mut whole = env.clone();
        for q in ps.iter().rev() {
            if fv.contains(q.0) {
                whole.insert(q.0.to_string(), q.1);
            }
        }
        rf::AMBIGUOUS.with(|c| c.set(false));
        // the provision is about the original expression with the variables set
        let (v, good) = t.eval(&whole);
        if !good || rf::AMBIGUOUS.with(|c| c.get()) {
            continue;
        }
        n += 1;
        if !numeq(v, got) {
            return Err(format!("simplified for {ps:?} to {y}, which gives {got:?} at {env:?}; the original gives {v:?}"));
        }
    }
    Ok(if n == 0 {
        Out::Skip
    } else if fv.is_empty() {
        Out::Trivial
    } else {
        Out::Ok
    })
}

fn c15(run: &mut Run) {
    let mut r = Rng::new(run.seed, 115);
    let none = Ctx::new();
    let atoms = ["0", "1", "2", "x", "y", "(-x)", "(-y)", "(x*y)", "(y*x)", "(x+y)", "(x-y)", "x!", "sin(x)", "max(x,y)", "(x/y)", "(x^2)", "(x^y)", "(-(x+y))"];
    for a in atoms {
        for b in atoms {
            for o in ["+", "-", "*", "/", "%", "^"] {
                for w in ["@", "z*(@)", "(@)-x", "y/(@)", "-(@)", "(@)^2", "max(@,x,z)"] {
                    let s = w.replace('@', &format!("{a}{o}{b}"));
                    for k in 0..3 {
                        run.case(desc(&s, &none), || c15_one(&s, &none, &mut Rng::new(k, 15)));
                    }
                }
            }
        }
        if run.done() {
            return;
        }
    }
    for _ in 0..50_000 * run.scale {
        let (s, c) = if r.chance(1, 2) {
            gen_case(&mut r, 3, false)
        } else {
            let c = if r.chance(2, 3) { Ctx::new() } else { context(&mut r) };
            let g = ExprGen { vars: &["x", "y", "xy", "X", "XY", "Xy", "xy_"], funs: funs(&c), sloppy: false, closed: false, small: r.chance(2, 3) };
            let d = r.below(4);
            let s = if r.chance(1, 2) { rule_expr(&mut r, &g, d) } else { g.expr(&mut r, d) };
            (s, c)
        };
        let k = r.next();
        run.case(desc(&s, &c), || c15_one(&s, &c, &mut Rng::new(k, 7)));
    }
}

/* ------------------------------------------------------------ C16 */

mod arity_fns {
    macro_rules! def {
        ($($n:ident($($a:ident),*)),* $(,)?) => {
            $(#[allow(unused_mut, unused_assignments)]
            pub fn $n($($a: f64),*) -> f64 { let mut s = 0.5; let mut w = 1.0; $( s += w * $a; w *= 3.0; )* s })*
        };
    }
    def!(
        w0(), w1(a), w2(a, b), w3(a, b, c), w4(a, b, c, d), w5(a, b, c, d, e), w6(a, b, c, d, e, f),
        w7(a, b, c, d, e, f, g), w8(a, b, c, d, e, f, g, h), w9(a, b, c, d, e, f, g, h, i)
    );
    pub fn wv(a: &[f64]) -> f64 {
        let (mut s, mut w) = (0.5, 1.0);
        for x in a {
            s += w * x;
            w *= 3.0;
        }
        s
    }
}

fn c16(run: &mut Run) {
    use arity_fns::*;
    use xprs::xprs_fn;
    let mut r = Rng::new(run.seed, 116);
    let k = 0.25f64;
    macro_rules! dyns {
        ($f:ident, $($a:ident),*) => {
            move |$($a: f64),*| $f($($a),*) + k
        };
    }
    // (what, function, offset, arity, name)
    let mut all: Vec<(&str, Function, f64, Option<u8>, &str)> = vec![];
    macro_rules! forms {
        ($n:tt, $f:ident, $d:expr) => {
            all.push(("static named", xprs_fn!("nm", $f, $n), 0.0, Some($n), "nm"));
            all.push(("dyn named", xprs_fn!("nm", dyn $d, $n), k, Some($n), "nm"));
            let dynf = $d;
            all.push(("dyn unnamed", xprs_fn!(dyn dynf, $n), k, Some($n), "dynf"));
        };
    }
    forms!(0, w0, dyns!(w0,));
    forms!(1, w1, dyns!(w1, a));
    forms!(2, w2, dyns!(w2, a, b));
    forms!(3, w3, dyns!(w3, a, b, c));
    forms!(4, w4, dyns!(w4, a, b, c, d));
    forms!(5, w5, dyns!(w5, a, b, c, d, e));
    forms!(6, w6, dyns!(w6, a, b, c, d, e, f));
    forms!(7, w7, dyns!(w7, a, b, c, d, e, f, g));
    forms!(8, w8, dyns!(w8, a, b, c, d, e, f, g, h));
    forms!(9, w9, dyns!(w9, a, b, c, d, e, f, g, h, i));
    all.push(("variadic static", xprs_fn!("nm", wv), 0.0, None, "nm"));
    all.push(("variadic static unnamed", xprs_fn!(wv), 0.0, None, "wv"));
    all.push(("variadic dyn", xprs_fn!("nm", dyn move |a: &[f64]| wv(a) + k), k, None, "nm"));
    let dv = move |a: &[f64]| wv(a) + k;
    all.push(("variadic dyn unnamed", xprs_fn!(dyn dv), k, None, "dv"));
    for (what, f, off, arity, name) in &all {
        run.case(format!("{what} arity {arity:?}: declaration"), || {
            if f.name != *name || f.nb_args != *arity {
                return Err(format!("declares name {:?} and arity {:?}, expected {name:?} {arity:?}", f.name, f.nb_args));
            }
            Ok(Out::Ok)
        });
        for i in 0..200 * run.scale {
            // variadic: lists around the sizes of the integer types too
            let n = arity.map_or_else(|| if i % 20 == 0 { *r.pick(&[15, 16, 17, 63, 64, 65, 127, 128, 254, 255, 256, 257, 1000]) } else { r.below(12) }, usize::from);
            let args: Vec<f64> = (0..n).map(|_| if r.chance(1, 8) { any_value(&mut r) } else { generic_value(&mut r) }).collect();
            run.case(format!("{what} arity {arity:?} at {args:?}"), || {
                let want = if *off == 0.0 { wv(&args) } else { wv(&args) + off };
                let got = (f.func)(&args);
                if !same(got, want) {
                    return Err(format!("gives {got:?}, expected {want:?}"));
                }
                let p = Parser::new_with_ctx(Context::default().with_fn(f.clone()));
                let names: Vec<String> = (0..n).map(|i| format!("x{i}")).collect();
                let s = format!("{name}({})", names.join(","));
                let x = p.parse(&s).map_err(|e| format!("{s}: {e}"))?;
                let env: HashMap<&str, f64> = names.iter().map(String::as_str).zip(args.iter().copied()).collect();
                let got = x.eval(&env).map_err(|e| e.to_string())?;
                if !same(got, want) {
                    return Err(format!("{s} gives {got:?}, expected {want:?}"));
                }
                Ok(Out::Ok)
            });
        }
    }
}

/* ------------------------------------------------------------ C17 */

fn commute(t: &T, r: &mut Rng) -> T {
    match t {
        T::Num(_) | T::Var(_) => t.clone(),
        T::Un(c, a) => T::Un(*c, Box::new(commute(a, r))),
        T::Bin(c, a, b) => {
            let (x, y) = (commute(a, r), commute(b, r));
            if matches!(c, '+' | '*') && r.chance(1, 2) {
                T::Bin(*c, Box::new(y), Box::new(x))
            } else {
                T::Bin(*c, Box::new(x), Box::new(y))
            }
        }
        T::Call(f, v) => T::Call(f.clone(), v.iter().map(|a| commute(a, r)).collect()),
    }
}

fn tweak(t: &T, r: &mut Rng) -> T {
    match t {
        T::Num(v) => T::Num(if r.chance(1, 2) { v + 1.0 } else { *v }),
        T::Var(v) => T::Var(if r.chance(1, 2) { (*r.pick(&["x", "y", "z"])).to_string() } else { v.clone() }),
        T::Un(c, a) => match r.below(3) {
            0 => (**a).clone(),
            1 => T::Un(*r.pick(&['+', '-', '!']), a.clone()),
            _ => T::Un(*c, Box::new(tweak(a, r))),
        },
        T::Bin(c, a, b) => match r.below(6) {
            0 => T::Bin(*c, b.clone(), a.clone()),
            // the same operands in the same order, grouped the other way
            4 => match (&**a, &**b) {
                (T::Bin(d, p, q), _) => T::Bin(*d, p.clone(), Box::new(T::Bin(*c, q.clone(), b.clone()))),
                (_, T::Bin(d, p, q)) => T::Bin(*d, Box::new(T::Bin(*c, a.clone(), p.clone())), q.clone()),
                _ => T::Bin(*c, Box::new(tweak(a, r)), Box::new(tweak(b, r))),
            },
            5 => match &**b {
                T::Bin(d, p, q) => T::Bin(*d, Box::new(T::Bin(*c, a.clone(), p.clone())), q.clone()),
                _ => T::Bin(*c, a.clone(), Box::new(tweak(b, r))),
            },
            1 => T::Bin(*r.pick(&['+', '-', '*', '/', '%', '^']), a.clone(), b.clone()),
            2 => T::Bin(*c, Box::new(tweak(a, r)), b.clone()),
            _ => T::Bin(*c, a.clone(), Box::new(tweak(b, r))),
        },
        T::Call(f, v) => {
            let mut w = v.clone();
            match (f, r.below(4)) {
                (F::Builtin("sum" | "min" | "max" | "mean"), 0) if !w.is_empty() => {
                    w.pop();
                }
                (F::Builtin("sum" | "min" | "max" | "mean"), 1) => w.push(T::Num(1.0)),
                (F::Builtin(_), 2) if w.len() == 2 => w.swap(0, 1),
                (F::Builtin(n), 3) => {
                    let k = rf::BUILTINS.iter().find(|b| b.0 == *n).unwrap().1;
                    let opts: Vec<_> = rf::BUILTINS.iter().filter(|b| b.1 == k).collect();
                    return T::Call(F::Builtin(r.pick(&opts).0), w);
                }
                _ => {
                    if !w.is_empty() {
                        let i = r.below(w.len());
                        w[i] = tweak(&w[i], r);
                    }
                }
            }
            T::Call(f.clone(), w)
        }
    }
}

fn c17_one(s1: &str, s2: &str, c: &Ctx, r: &mut Rng) -> Result<Out, String> {
    let p = Parser::new_with_ctx(build(c));
    let (Ok(a), Ok(b)) = (rf::parse(s1, c, PEJ), rf::parse(s2, c, PEJ)) else { return Ok(Out::Skip) };
    let (Ok(x), Ok(y)) = (p.parse(s1), p.parse(s2)) else { return Ok(Out::Skip) };
    let (e, f) = (x == y, y == x);
    if e != f || (x != y) == e {
        return Err(format!("({x} == {y}) is {e} but the other way round {f}"));
    }
    if !OPT {
        let want = a.same(&b);
        if e != want {
            return Err(format!("({x} == {y}) is {e}, expected {want}"));
        }
    }
    let (g, want) = (x == x.clone(), a.same(&a));
    if !OPT && g != want {
        return Err(format!("{x} == itself is {g}"));
    }
    if e {
        if x.vars != y.vars {
            return Err(format!("{x} == {y} with different variables"));
        }
        for i in 0..4 {
            let fv: BTreeSet<String> = a.free().union(&b.free()).cloned().collect();
            let env = env_for(&fv, r, i > 1);
            if a.eval(&env).1 && b.eval(&env).1 {
                let (v, w) = (x.eval(&hm(&env)), y.eval(&hm(&env)));
                match (&v, &w) {
                    (Ok(p), Ok(q)) if numeq(*p, *q) => {}
                    _ => return Err(format!("{x} == {y} but they give {v:?} and {w:?} at {env:?}")),
                }
            }
        }
        return Ok(Out::Ok);
    }
    Ok(if a.size() > 1 && b.size() > 1 { Out::Ok } else { Out::Trivial })
}

fn c17(run: &mut Run) {
    let mut r = Rng::new(run.seed, 117);
    let none = Ctx::new();
    let small = ["x", "y", "0", "1", "-0", "-x", "x!", "x+y", "y+x", "x-y", "y-x", "x*y", "y*x", "x/y", "y/x", "x^y", "y^x", "x%y", "y%x", "+x", "sin(x)", "cos(x)", "max(x,y)", "max(y,x)", "max(x)", "max(x,y,x)", "x+x", "x*x", "(x+y)*z", "z*(y+x)", "(x*y)+z", "x*(y+z)", "-(x+y)", "-(y+x)", "sin(x+y)", "sin(y+x)", "2*x", "2x", "x+(y+z)", "(x+y)+z", "X", "f", "min(x,y)", "atan2(x,y)", "atan2(y,x)", "recip(x)", "invert(x)", "0/0", "x+0/0", "sum()", "sum(x)", "1e999", "x*1e999"];
    for a in small {
        for b in small {
            run.case(format!("{a:?} vs {b:?}"), || c17_one(a, b, &none, &mut Rng::new(17, 17)));
            for w in ["-(@)", "(@)+z", "z*(@)", "max(@,1)", "(@)^2"] {
                let (s1, s2) = (w.replace('@', a), w.replace('@', b));
                run.case(format!("{s1:?} vs {s2:?}"), || c17_one(&s1, &s2, &none, &mut Rng::new(17, 17)));
            }
        }
    }
    for _ in 0..60_000 * run.scale {
        let g = ExprGen { vars: &["x", "y", "z"], funs: vec![("sin", Some(1)), ("atan2", Some(2)), ("max", None), ("sum", None), ("cos", Some(1))], sloppy: false, closed: false, small: true };
        let d = r.below(4);
        let s = g.expr(&mut r, d);
        let Ok(t) = rf::parse(&s, &none, PEJ) else { continue };
        let mut u = commute(&t, &mut r);
        if r.chance(1, 2) {
            u = tweak(&u, &mut r);
        }
        let (s1, s2) = (t.text(), u.text());
        let k = r.next();
        run.case(format!("{s1:?} vs {s2:?}"), || c17_one(&s1, &s2, &none, &mut Rng::new(k, 7)));
    }
    // numbers compare as doubles, functions by identity
    for a in SPECIAL {
        for b in SPECIAL {
            let ca: Ctx = [("k", Sym::Const(*a)), ("l", Sym::Const(*b))].into_iter().collect();
            for (s1, s2) in [("k", "l"), ("k+x", "l+x"), ("x*k", "l*x"), ("-(k+x)", "-(x+l)"), ("k-x", "l-x"), ("x^k", "x^l")] {
                run.case(format!("{s1:?} vs {s2:?} k={a:?} l={b:?}"), || c17_one(s1, s2, &ca, &mut Rng::new(17, 17)));
            }
        }
    }
    // same name, other function: whatever the functions give, and without calling them
    run.case("same name, different implementations, arities, kinds".into(), || {
        static CALLS: AtomicUsize = AtomicUsize::new(0);
        fn called(v: f64) -> f64 {
            CALLS.fetch_add(1, Ordering::SeqCst);
            v
        }
        macro_rules! fns { ($($n:ident $v:ident $e:expr),*) => { vec![$({ fn $n($v: &[f64]) -> f64 { called($e) } Function::new_static("f", $n, Some(1)) }),*] } }
        let mut fs = fns!(a v v[0], b v v[0] * v[0], c v v.iter().sum::<f64>(), d v v.len() as f64, e _v 0.0, g _v -0.0 * 1.0, h _v 1.0, i _v f64::NAN, j v v[0].abs(), k v v[0].floor());
        fs.push(Function::new_static("f", u_f, Some(1)));
        fs.push(Function::new_static("f", u_f, None));
        fs.push(Function::new_static("f", u_g, Some(1)));
        for n in [Some(1), None] {
            for k in [0.0, 1.0] {
                fs.push(Function::new_dyn("f", move |v: &[f64]| called(v.first().copied().unwrap_or(k)), n));
                fs.push(Function::new_dyn("f", move |_: &[f64]| called(k), n));
            }
            fs.push(Function::new_dyn("f", u_f, n));
        }
        let mk = |f: &Function| Parser::new_with_ctx(Context::default().with_fn(f.clone()));
        for (i, f) in fs.iter().enumerate() {
            for (j, g) in fs.iter().enumerate() {
                let (p, q) = (mk(f), mk(g));
                if (f == g) != (i == j) || (f.func == g.func) && f.nb_args == g.nb_args && i != j {
                    return Err(format!("functions {i} and {j}: equality is {}", f == g));
                }
                let (x, y) = (p.parse("f(x)").map_err(|e| e.to_string())?, q.parse("f(x)").map_err(|e| e.to_string())?);
                let before = CALLS.load(Ordering::SeqCst);
                let (e1, e2) = (x == y, y == x);
                if e1 != (i == j) || e2 != (i == j) {
                    return Err(format!("functions {i} and {j}: equality of f(x) is {e1}, {e2}"));
                }
                if CALLS.load(Ordering::SeqCst) != before {
                    return Err(format!("functions {i} and {j}: == called them"));
                }
            }
        }
        Ok(Out::Ok)
    });
}

/* ------------------------------------------------------------ C18 */

/// The whole outcome of parsing and evaluating, as text.
fn fingerprint(p: &Parser, s: &str, r: &Rng) -> String {
    match p.parse(s) {
        Err(e) => format!("error {e} {:?} {:?}", span_of(&e), e.help().map(|h| h.to_string())),
        Ok(x) => {
            let mut vs: Vec<String> = x.vars.iter().map(|v| v.to_string()).collect();
            vs.sort();
            let env = env_for(&vs, &mut r.clone(), true);
            let env2 = env_for(&vs, &mut Rng::new(r.clone().next(), 181), true);
            let m = hm(&env);
            let a = x.eval(&m).map(f64::to_bits);
            let before = x.to_string();
            let b = x.eval(&m).map(f64::to_bits);
            let e0 = x.eval(&HashMap::new());
            let e1 = x.eval(&HashMap::new());
            let o = x.eval(&hm(&env2)).map(f64::to_bits);
            let c = x.eval(&m).map(f64::to_bits);
            let u = a.as_ref().map(|_| x.eval_unchecked(&m).to_bits());
            let y = x.clone();
            let oy = y.eval(&hm(&env2)).map(f64::to_bits);
            let vals: Vec<f64> = vs.iter().map(|v| env[v.as_str()]).collect();
            let names: Vec<&str> = vs.iter().map(String::as_str).collect();
            let ab = x.clone().bind_n_runtime(&names).ok().map(|f| f(&vals).map(f64::to_bits));
            let nan = |b: &Result<u64, xprs::EvalError>| b.as_ref().map_or(false, |b| f64::from_bits(*b).is_nan());
            let eq = |p: &Result<u64, xprs::EvalError>, q: &Result<u64, xprs::EvalError>| p == q || nan(p) && nan(q);
            let one = |e: &Result<f64, xprs::EvalError>| e.as_ref().map(|v| v.to_bits()).map_err(|e| e.to_string());
            let bound = match ab {
                None => false,
                Some(Ok(v)) => eq(&a, &Ok(v)),
                Some(Err(_)) => false,
            };
            if !eq(&a, &b) || !eq(&b, &c) || !eq(&o, &oy) || before != x.to_string() || y != y.clone() && !before.contains("NaN")
                || one(&e0).is_ok() != one(&e1).is_ok() || one(&e0).err() != one(&e1).err() || !bound || u.is_ok_and(|u| !eq(&Ok(u), &a)) {
                return format!("unstable {a:?} {b:?} {c:?} {o:?} {oy:?} {e0:?} {e1:?} bound={bound} {before} {x}");
            }
            let a = if nan(&a) { Ok(f64::NAN.to_bits()) } else { a };
            format!("{x} {vs:?} {a:?} {:?}", one(&e0).err())
        }
    }
}

/// Expressions held side by side, evaluated in turn, in two orders, moved and dropped in between.
fn interleaved(p: &Parser, inputs: &[(String, Rng)]) -> Result<(), String> {
    let xs: Vec<(usize, Xprs)> = inputs.iter().enumerate().filter_map(|(i, (s, _))| Some((i, p.parse(s).ok()?))).collect();
    let val = |x: &Xprs, k: u64| {
        let vs: BTreeSet<String> = x.vars.iter().map(|v| v.to_string()).collect();
        let env = env_for(&vs, &mut Rng::new(k, 182), false);
        let v = x.eval(&hm(&env));
        v.map(|v| if v.is_nan() { f64::NAN.to_bits() } else { v.to_bits() }).map_err(|e| e.to_string())
    };
    let alone: Vec<Vec<_>> = inputs
        .iter()
        .enumerate()
        .map(|(i, (s, _))| (0..3).map(|k| p.parse(s).map(|x| val(&x, i as u64 * 16 + k)).unwrap_or(Ok(0))).collect())
        .collect();
    for round in 0..2u64 {
        for k in [0, 1, 2, 1] {
            for (i, x) in &xs {
                let got = val(x, *i as u64 * 16 + k);
                if got != alone[*i][k as usize] {
                    return Err(format!("{:?}: value {k} is {got:?} among other evaluations, {:?} alone", inputs[*i].0, alone[*i][k as usize]));
                }
            }
        }
        if round == 0 {
            for (i, x) in xs.iter().rev() {
                let moved = Box::new(x.clone());
                let got = val(&moved, *i as u64 * 16 + 2);
                if got != alone[*i][2] {
                    return Err(format!("{:?}: a clone's value is {got:?}, {:?} alone", inputs[*i].0, alone[*i][2]));
                }
            }
        }
    }
    Ok(())
}

fn same_each_time(c: &Ctx, expected: &Option<Vec<&'static str>>, inputs: &[(String, Rng)]) -> Result<(), String> {
    // every context built anew: hash sets of other seeds
    let ctx = || match expected {
        None => build(c),
        Some(e) => build(c).with_expected_vars(e.iter().copied().collect()),
    };
    let shared = Parser::new_with_ctx(ctx());
    let fresh: Vec<String> = inputs.iter().map(|(s, k)| fingerprint(&Parser::new_with_ctx(ctx()), s, k)).collect();
    let seq: Vec<String> = inputs.iter().map(|(s, k)| fingerprint(&shared, s, k)).collect();
    let rev: Vec<String> = inputs.iter().rev().map(|(s, k)| fingerprint(&shared, s, k)).collect();
    let thr: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = inputs
            .chunks(4)
            .map(|ch| {
                let shared = &shared;
                sc.spawn(move || ch.iter().map(|(s, k)| fingerprint(shared, s, k)).collect::<Vec<_>>())
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec!["panicked".into()])).collect()
    });
    for (i, (s, _)) in inputs.iter().enumerate() {
        let all = [&fresh[i], &seq[i], &rev[inputs.len() - 1 - i], &thr[i]];
        if fresh[i].starts_with("unstable") {
            return Err(format!("{s:?}: {}", fresh[i]));
        }
        if all.iter().any(|a| *a != all[0]) {
            return Err(format!("{s:?} gives, depending on history and thread: {all:?}"));
        }
    }
    interleaved(&shared, inputs)
}

const PROBES: &[&str] = &[
    "1", "1+2", "2-2", "0.5^2", "3!", "-4", "x", "x+0", "x*1", "x+x", "x-x", "x+1", "y+x", "a+b*c", "2x", "2(x+1)", "-x!", "x^-y",
    "sin(x)", "sin(0)", "pi", "e*x", "max()", "max(1,2,x)", "min(3)", "hypot(x,y)", "logn(x,2)", "1e5", "1e400", "1_000", ".5", "x1y",
    "", " ", "(", ")", "x)", "(x", "1.2.3", "foo(x)", "sin x", "sin(x,y)", "sin()", "x y", "2 x", "@", "x @", "x!!", "1__2", "1e", "x+",
    "\u{e9}", "x \u{e9}", "((((x))))", "x%0", "0/0", "1/0", "k0", "k0(1)", "v1+v2", "v25", "v1", "f1(x)", "very(1)", "(((1)))*2", "-(-(x))",
];

/// How one of the probes is answered, in this process.
pub fn probe(i: usize) -> String {
    let s = PROBES[i % PROBES.len()];
    let p = if i < PROBES.len() {
        Parser::default()
    } else {
        Parser::new_with_ctx(Context::default().with_var("k0", 2.5).with_fn(Function::new_static("f1", u_f, Some(1))).with_expected_vars(["x", "y"].into()))
    };
    fingerprint(&p, s, &Rng::new(3, 18)).replace('\n', "\\n")
}

/// Parsing and evaluating something out of the ordinary.
fn ordeal(k: usize) -> String {
    let list = |n: usize, f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
    let v = |i: usize| format!("v{i}");
    let (s, p) = match k {
        0 => ("1".into(), Parser::default()),
        1 => (list(30, &v, "+"), Parser::default()),
        2 => (list(300, &v, "*"), Parser::default()),
        3 => (format!("max({})", list(300, &v, ",")), Parser::default()),
        4 => (format!("sum({})", list(1000, &|i| i.to_string(), ",")), Parser::default()),
        5 => (format!("{}x{}", "(".repeat(300), ")".repeat(300)), Parser::default()),
        6 => (format!("{}x", "-".repeat(300)), Parser::default()),
        7 => (format!("{}x{}", "sin(".repeat(300), ")".repeat(300)), Parser::default()),
        8 => ("v".repeat(5000), Parser::default()),
        9 => ("7".repeat(3000), Parser::default()),
        10 => (format!("{}@", "x + ".repeat(300)), Parser::default()),
        11 => (format!("{}x", "(".repeat(300)), Parser::default()),
        12 => (list(400, &|i| format!("{i}*{}", v(i)), " + "), Parser::default()),
        13 => (format!("very{}(1)", "y".repeat(300)), Parser::default()),
        14 => ("\u{20ac}".repeat(300), Parser::default()),
        15 => (format!("{}1", "2^".repeat(300)), Parser::default()),
        16 => (format!("1{}", "!".repeat(300)), Parser::default()),
        17 => (format!("x{}y", " ".repeat(70_000)), Parser::default()),
        18 => (list(1000, &|i| format!("{i}.25"), "+"), Parser::default()),
        19 => (list(40, &v, "+"), Parser::new_with_ctx(Context::default().with_expected_vars(["v0"].into()))),
        20 => {
            let names: Vec<&'static str> = (0..300).map(|i| &*Box::leak(v(i).into_boxed_str())).collect();
            let mut c = Context::default();
            for (i, n) in names.iter().enumerate() {
                c.set_var(n, i as f64);
            }
            (list(300, &v, "+"), Parser::new_with_ctx(c))
        }
        _ => {
            let names: Vec<&'static str> = (0..100).map(|i| &*Box::leak(format!("f{i}").into_boxed_str())).collect();
            let mut c = Context::default();
            for n in names {
                c.set_fn(Function::new_static(n, u_g, None));
            }
            (list(100, &|i| format!("f{i}(x,{i})"), "+"), Parser::new_with_ctx(c))
        }
    };
    fingerprint(&p, &s, &Rng::new(5, 18))
}

fn ordeals(run: &mut Run) {
    let me = std::env::current_exe().unwrap();
    let n = 2 * PROBES.len();
    let fresh: Vec<Option<String>> = (0..n)
        .map(|i| {
            let o = std::process::Command::new(&me).arg("fresh18").arg(i.to_string()).output().ok()?;
            o.status.success().then(|| String::from_utf8_lossy(&o.stdout).trim_end_matches('\n').to_string())
        })
        .collect();
    for k in 0..22 {
        run.case(format!("each of {PROBES:?} in a process of its own, and after ordeal {k} of the C18 cases"), || {
            let _ = ordeal(k);
            let there: Vec<String> = std::thread::scope(|s| s.spawn(|| (0..n).map(probe).collect()).join().unwrap_or_default());
            for i in 0..n {
                let Some(f) = &fresh[i] else { continue };
                let here = probe(i);
                if here != *f || there.get(i) != Some(f) {
                    return Err(format!("{:?} gives {here:?}, in another thread {:?}, in a process of its own {f:?}", PROBES[i % PROBES.len()], there.get(i)));
                }
            }
            Ok(Out::Ok)
        });
    }
}

fn c18(run: &mut Run) {
    ordeals(run);
    fn shared<T: Send + Sync>() {}
    shared::<Xprs<'static>>();
    shared::<Parser<'static>>();
    shared::<Context<'static>>();
    shared::<Function>();
    let mut r = Rng::new(run.seed, 118);
    for round in 0..1_500 * run.scale {
        let c = context(&mut r);
        let inputs: Vec<(String, Rng)> = (0..12)
            .map(|_| {
                let g = ExprGen { vars: VARS, funs: funs(&c), sloppy: true, closed: false, small: true };
                let d = r.below(3);
                let g = if r.chance(1, 3) { ExprGen { vars: &[], funs: funs(&c), sloppy: true, closed: true, small: true } } else { g };
                let s = if r.chance(1, 4) { garbage(&mut r) } else { g.expr(&mut r, d) };
                (s, Rng::new(r.next(), 18))
            })
            .collect();
        let expected: Option<Vec<&'static str>> = (round % 3 == 0).then(|| (0..r.below(5)).map(|_| *r.pick(VARS)).collect());
        let d = format!("history={:?} context=[{}] expected={expected:?}", inputs.iter().map(|i| &i.0).collect::<Vec<_>>(), ctx_text(&c));
        run.case(d, || {
            same_each_time(&c, &expected, &inputs)?;
            // the same names with other meanings, before and after: each time the reference's value
            let mut twin = c.clone();
            for s in twin.values_mut() {
                match s {
                    Sym::Const(v) => *v = 0.5 * *v + 1.25,
                    Sym::Fun(_, _, f) => {
                        let i = IMPLS.iter().position(|g| *g as usize == *f as usize).unwrap_or(0);
                        *f = IMPLS[(i + 1) % IMPLS.len()];
                    }
                }
            }
            for (s, k) in &inputs {
                for (w, ctx) in [("", &c), (" after the same names had other meanings", &twin), (" after the same names had other meanings", &c)] {
                    c07_one(s, ctx, &mut k.clone()).map_err(|e| format!("{s:?}{w}: {e}"))?;
                    c08_one(s, ctx).map_err(|e| format!("{s:?}{w}: {e}"))?;
                }
            }
            Ok(Out::Ok)
        });
    }
    // one text after the other at the same place in memory
    for round in 0..400 * run.scale {
        let c = if round % 2 == 0 { Ctx::new() } else { context(&mut r) };
        let g = ExprGen { vars: VARS, funs: funs(&c), sloppy: false, closed: false, small: true };
        let texts: Vec<String> = (0..8)
            .map(|i| match (round % 4, i) {
                (0 | 1, _) => {
                    // the same shape, other digits and letters
                    let (d, v, b) = (r.below(9), *r.pick(&["x", "y", "z"]), *r.pick(&["sin", "cos", "exp", "tan", "foo"]));
                    match round / 4 % 6 {
                        0 => format!("{v}+{d}"),
                        1 => format!("{b}({v}-{d}.5)"),
                        2 => format!("{d}{d}.{d}-{v}"),
                        3 => format!("max({v},{d},{d}{v})"),
                        4 => format!("{b}({d}){}", *r.pick(&["!", "x", ")", "@", "1"])),
                        _ => format!("k{d}+{v}*{d}"),
                    }
                }
                _ => {
                    let d = r.below(3);
                    g.expr(&mut r, d)
                }
            })
            .collect();
        run.case(format!("one after the other in one buffer: {texts:?} context=[{}]", ctx_text(&c)), || {
            let p = Parser::new_with_ctx(build(&c));
            let mut buffer = String::with_capacity(4096);
            for t in &texts {
                let apart: &'static str = Box::leak(t.clone().into_boxed_str());
                let want = std::thread::scope(|s| s.spawn(|| fingerprint(&p, apart, &Rng::new(3, 18))).join()).map_err(|_| "panics".to_string())?;
                buffer.clear();
                buffer.push_str(t);
                let got = fingerprint(&p, &buffer, &Rng::new(3, 18));
                if got != want {
                    return Err(format!("{t:?} gives {got} there, {want} elsewhere"));
                }
            }
            Ok(Out::Ok)
        });
    }
    // values that compare equal and still differ, one after the other
    for round in 0..600 * run.scale {
        let g = ExprGen { vars: &["x", "y"], funs: funs(&Ctx::new()), sloppy: false, closed: false, small: true };
        let d = 1 + r.below(2);
        let s = match round {
            0 => "x^y".to_string(),
            1 => "1/x".to_string(),
            2 => "atan2(x,y)".to_string(),
            3 => "1/min(x,y)".to_string(),
            4 => "1/(x*y)".to_string(),
            5 => "1/(x%2)".to_string(),
            6 => "1/sqrt(x)".to_string(),
            7 => "1/(x/y)".to_string(),
            8 => "1/(x-y)".to_string(),
            9 => "1/(x+y)".to_string(),
            10 => "1/x!".to_string(),
            11 => "1/sum(x,y)".to_string(),
            _ => g.expr(&mut r, d),
        };
        run.case(format!("{s:?} at zeros of both signs in turn"), || {
            let p = Parser::default();
            let Ok(x) = p.parse(&s) else { return Ok(Out::Skip) };
            for (a, b) in [(0.0, -1.0), (0.0, 1.0), (0.0, -2.5), (0.0, 0.0), (-1.0, 0.0), (1.0, 0.0), (0.0, 3.0)] {
                let flip = |v: f64| if v == 0.0 { -v } else { v };
                let at = |a: f64, b: f64| {
                    let env = HashMap::from([("x", a), ("y", b)]);
                    (x.eval(&env).map(f64::to_bits), x.eval_unchecked(&env).to_bits())
                };
                let (u, v) = (flip(a), flip(b));
                let other = || (0..4).for_each(|k| drop(at(7.5 + f64::from(k), 0.375 + f64::from(k))));
                other();
                let minus = at(u, v);
                other();
                let plus = at(a, b);
                if at(u, v) != minus {
                    return Err(format!("at x={u:?}, y={v:?}: {:?} after x={a:?}, y={b:?}, otherwise {minus:?}", at(u, v)));
                }
                if at(a, b) != plus {
                    return Err(format!("at x={a:?}, y={b:?}: {:?} after x={u:?}, y={v:?}, otherwise {plus:?}", at(a, b)));
                }
                let mixed = at(a, v);
                other();
                if at(a, v) != mixed {
                    return Err(format!("at x={a:?}, y={v:?}: {mixed:?} after x={a:?}, y={b:?}"));
                }
            }
            Ok(Out::Ok)
        });
    }
    // several undeclared variables, and several allowed ones
    for e in [vec![], vec!["x"], vec!["x", "y", "z"], vec!["p", "q", "r", "s", "t"]] {
        for s in ["a+b", "a*b-c/d", "x+a+b+y", "d(c(b(a)))", "sin(a)+max(b,c,d,e2)", "z+y+x+w", "0a+0b+c+d", "a-a+b-b"] {
            let inputs = vec![(s.to_string(), Rng::new(1, 18)); 8];
            let e = Some(e.clone());
            run.case(format!("history={:?} expected={e:?}", inputs.iter().map(|i| &i.0).collect::<Vec<_>>()), || {
                same_each_time(&Ctx::new(), &e, &inputs)?;
                Ok(Out::Ok)
            });
        }
    }
    // long histories: nothing accumulates
    let long: [&str; 12] = ["x+1", "(x", "2(4x+1)!", "foo)", "", "sin(x", "sin(x,y)", "1.2.3", "((((((((((1))))))))))", "-(-(-x))", "max(1,2,x)", "\u{e9}"];
    for (i, s) in long.iter().enumerate() {
        run.case(format!("70000 times {s:?}, then each of {long:?}"), || {
            let p = Parser::default();
            let before: Vec<String> = long.iter().map(|s| fingerprint(&p, s, &Rng::new(3, 18))).collect();
            let x = p.parse(s).ok();
            let first = x.as_ref().map(|x| x.eval(&HashMap::from([("x", 0.75)])).map(f64::to_bits));
            for k in 0..70_000u32 {
                let n = p.parse(s).is_ok();
                if n != x.is_some() {
                    return Err(format!("accepted: {n} after {k} times"));
                }
                if let (Some(x), Some(v)) = (&x, &first) {
                    let w = x.eval(&HashMap::from([("x", 0.75)])).map(f64::to_bits);
                    if w != *v {
                        return Err(format!("evaluates to {w:?} after {k} times, {v:?} at first"));
                    }
                }
            }
            let after: Vec<String> = long.iter().map(|s| fingerprint(&p, s, &Rng::new(3, 18))).collect();
            if before != after {
                return Err(format!("before {before:?}, after {after:?}"));
            }
            Ok(if i == 0 { Out::Ok } else { Out::Trivial })
        });
    }
}
