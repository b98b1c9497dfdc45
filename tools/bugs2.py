EV = '''
fn ev(s: &str, vars: &[(&str, f64)]) -> f64 {
    let m: std::collections::HashMap<&str, f64> = vars.iter().copied().collect();
    xprs::Xprs::try_from(s).unwrap().eval(&m).unwrap()
}
'''
NIGHTLY = "nightly-2026-08-21-x86_64-unknown-linux-gnu"
BUGS = [
 dict(id="c01_swallow_panic", property="C19", edits=[("src/element/function_call.rs", "        (self.desc.func)(args)\n", "        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {\n            (self.desc.func)(args)\n        }))\n        .unwrap_or(f64::NAN)\n")],
  needs="a user function that panics", breaks="the panic of a user function is swallowed and NaN returned",
  demo='fn main() { let f = xprs::xprs_fn!("f", dyn |_: &[f64]| -> f64 { panic!("x") }); let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_fn(f)); let x = p.parse("f(x)").unwrap(); assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.eval(&[("x", 1.0)].into()))).is_err()); }'),
 dict(id="c02_double_drop", property="C19", edits=[("src/element/simplify.rs", "        self.args = self\n            .args\n            .into_iter()\n            .map(|arg| arg.simplify_for(var))\n            .collect();\n        self.simplify()", "        // in place, there is no need for a second vector\n        for arg in &mut self.args {\n            #[allow(unsafe_code)]\n            unsafe {\n                let simplified = core::ptr::read(arg).simplify_for(var);\n                core::ptr::write(arg, simplified);\n            }\n        }\n        self.simplify()")],
  needs="a user function that panics while an argument of another call is simplified", breaks="the argument is dropped twice",
  demo='fn main() { let f = xprs::xprs_fn!("f", dyn |_: &[f64]| -> f64 { panic!("x") }); let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_fn(f)); let x = p.parse("max(f(x), y)").unwrap(); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.simplify_for(("x", 1.0)))); assert!(r.is_err()); std::mem::forget(r); }'),
 dict(id="c03_leak_on_panic", property="C19", edits=[("src/element/simplify.rs", "        self.args = self\n            .args\n            .into_iter()\n            .map(|arg| arg.simplify_for(var))\n            .collect();\n        self.simplify()", "        // in place, there is no need for a second vector\n        let len = self.args.len();\n        let args = self.args.as_mut_ptr();\n        #[allow(unsafe_code)]\n        unsafe {\n            self.args.set_len(0);\n            for i in 0..len {\n                let simplified = args.add(i).read().simplify_for(var);\n                args.add(i).write(simplified);\n            }\n            self.args.set_len(len);\n        }\n        self.simplify()")],
  needs="a user function that panics while an argument is simplified, and another argument that owns something", breaks="the other arguments are never dropped",
  demo='use std::sync::Arc; fn main() { let tok = Arc::new(()); let t2 = tok.clone(); { let g = xprs::xprs_fn!("g", dyn move |a: &[f64]| -> f64 { let _ = &t2; a[0] }, 1); let _ = g; } let t3 = tok.clone(); { let g = xprs::Function::new_dyn("g", move |a: &[f64]| -> f64 { let _ = &t3; a[0] }, Some(1)); let f = xprs::xprs_fn!("f", dyn |_: &[f64]| -> f64 { panic!("x") }); let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_fn(f).with_fn(g)); let x = p.parse("max(f(x), g(y))").unwrap(); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.simplify_for(("x", 1.0)))); assert!(r.is_err()); } assert_eq!(Arc::strong_count(&tok), 1); }'.replace('{ let g = xprs::xprs_fn!("g", dyn move |a: &[f64]| -> f64 { let _ = &t2; a[0] }, 1); let _ = g; }', 'drop(t2);')),
 dict(id="c04_message_swapped", property="C13", edits=[("src/parser.rs", '#[error("Too few arguments for function call, expected {0} got {1}")]', '#[error("Too few arguments for function call, expected {1} got {0}")]')],
  needs="the message of a too-few-arguments error", breaks="the message swaps the arity and the number of arguments",
  demo='fn main() { let e = xprs::Xprs::try_from("hypot(1)").unwrap_err(); assert!(e.to_string().contains("expected 2 got 1"), "{e}"); }'),
 dict(id="c05_malformed_len", property="C13", edits=[("src/parser.rs", "let num_len = ident.len();", "let num_len = ident.replace('_', \"\").len();")],
  needs="a malformed number with underscores", breaks="the span of the malformed number misses its beginning",
  demo='use miette::Diagnostic; fn main() { let e = xprs::Xprs::try_from("x + 1_0.0.0").unwrap_err(); let l = e.labels().unwrap().next().unwrap(); assert_eq!((l.offset(), l.len()), (4, 7)); }'),
 dict(id="c06_nul_is_end", property="C13", edits=[("src/parser.rs", "        let Some(&next) = self.next_trim() else {\n", "        let Some(&next) = self.next_trim().filter(|&&tok| tok != 0) else {\n")],
  needs="a NUL character where an operand is expected", breaks="an end-of-input error in the middle of the input",
  demo='fn main() { let e = xprs::Xprs::try_from("1 + \\0 x").unwrap_err(); assert!(e.to_string().contains("Illegal"), "{e}"); }'),
 dict(id="c07_space_number", property="C02", edits=[("src/parser.rs", "        self.skip_while(u8::is_ascii_whitespace);\n        self.current()\n", "        let before = self.cursor;\n        self.skip_while(u8::is_ascii_whitespace);\n        if self.cursor > before + 1 {\n            self.after_number = false;\n        }\n        self.current()\n")],
  needs="two number literals separated by two spaces", breaks="1  2 is accepted as 1*2",
  demo='fn main() { assert!(xprs::Xprs::try_from("1  2").is_err()); }'),
 dict(id="c08_unop_precedence", property="C02", features="pejmdas", edits=[("src/utils/precedence.rs", "pub const UNOP_PRECEDENCE: usize = 3;", "pub const UNOP_PRECEDENCE: usize = 2;")],
  needs="the pejmdas configuration and a negated juxtaposition", breaks="-a b is parsed as -(a b)",
  demo='fn main() { assert_eq!(xprs::Xprs::try_from("-a b").unwrap().to_string(), "((-a) * b)"); }'),
 dict(id="c10_replacen", property="C03", edits=[("src/parser.rs", "ident.replace('_', \"\").parse()", "ident.replacen('_', \"\", 3).parse()")],
  needs="a literal with four underscores", breaks="1_000_000_000_000 is malformed",
  demo='fn main() { assert_eq!(xprs::Xprs::try_from("1_000_000_000_000").unwrap().eval_no_vars().unwrap(), 1e12); }'),
 dict(id="c11_quote_symbol", property="C04", edits=[("src/parser.rs", "            .get(name)\n            .cloned()", "            .get(name.trim_end_matches('\\''))\n            .cloned()")],
  needs="a primed identifier whose unprimed name is a context symbol", breaks="x' denotes the context's x",
  demo='fn main() { let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_var("x", 2.0)); assert!(p.parse("x\' + x").unwrap().vars.contains("x\'")); }'),
 dict(id="c12_short_circuit", property="C05", edits=[("src/xprs.rs", "                let left = self.eval_element(&binop.lhs)?;\n", "                let left = self.eval_element(&binop.lhs)?;\n                if binop.op == Operator::Times && left == 0.0 {\n                    return Ok(left);\n                }\n")],
  needs="a product whose left factor evaluates to zero and whose right factor misses a value or is infinite", breaks="evaluation gives a number although a variable is missing",
  demo='fn main() { let x = xprs::Xprs::try_from("x*y").unwrap(); assert!(x.eval(&[("x", 0.0)].into()).is_err()); }'),
 dict(id="c13_powi", property="C05", edits=[("src/xprs.rs", "                let left = self.eval_element(&binop.lhs)?;\n                let right = self.eval_element(&binop.rhs)?;\n                #[allow(clippy::unreachable)]\n                match binop.op {\n                    Operator::Plus => left + right,\n                    Operator::Minus => left - right,\n                    Operator::Times => left * right,\n                    Operator::Divide => left / right,\n                    Operator::Power => left.powf(right),", "                let left = self.eval_element(&binop.lhs)?;\n                let right = self.eval_element(&binop.rhs)?;\n                #[allow(clippy::unreachable)]\n                match binop.op {\n                    Operator::Plus => left + right,\n                    Operator::Minus => left - right,\n                    Operator::Times => left * right,\n                    Operator::Divide => left / right,\n                    #[allow(clippy::as_conversions, clippy::cast_possible_truncation)]\n                    Operator::Power if right.fract() == 0.0 && right.abs() < 1e6 => left.powi(right as i32),\n                    Operator::Power => left.powf(right),")],
  needs="a large whole exponent", breaks="x^n by repeated multiplication differs from the correctly computed power, and from the unchecked evaluation",
  demo='fn main() { let x = xprs::Xprs::try_from("x^n").unwrap(); for n in 2..400 { let m = [("x", 1.1), ("n", f64::from(n))].into(); assert_eq!(x.eval(&m).unwrap(), x.eval_unchecked(&m)); } }'),
 dict(id="c14_negated_arg_vars", property="C06", edits=[("src/element/mod.rs", "func.args.iter().for_each(|arg| arg.find_variables(vars));", "func.args\n                    .iter()\n                    .filter(|arg| !matches!(**arg, Self::UnOp(ref unop) if unop.op == crate::token::Operator::Factorial))\n                    .for_each(|arg| arg.find_variables(vars));")],
  needs="a variable that only occurs in an argument that is a factorial", breaks="the reported variables miss it",
  demo='fn main() { let x = xprs::Xprs::try_from("sin(n!)").unwrap(); assert!(x.vars.contains("n")); }'),
 dict(id="c15_nightly_times", property="C07", toolchain=NIGHTLY, edits=[("src/element/simplify.rs", "            BinOp {\n                op: Times,\n                lhs:\n                    Element::UnOp(box UnOp {\n                        op: Minus,\n                        operand: lhs,\n                    }),", "            BinOp {\n                op: Times,\n                lhs:\n                    Element::UnOp(box UnOp {\n                        op: Minus | Factorial,\n                        operand: lhs,\n                    }),")],
  needs="the nightly toolchain and a factorial times a negation", breaks="x! * (-y) is simplified to x * y",
  demo=EV + 'fn main() { assert_eq!(ev("x!*(-y)", &[("x", 4.0), ("y", 1.0)]), -24.0); }'),
 dict(id="c16_mod_one", property="C07", edits=[("src/element/simplify.rs", "            // a % 0 => NaN\n", "            // a % 1 => 0\n            BinOp {\n                op: Modulo, rhs, ..\n            } if rhs == Number(1.0) => Number(0.0),\n            // a % 0 => NaN\n")],
  needs="x % 1 for an x that is not whole", breaks="x % 1 is simplified to 0",
  demo=EV + 'fn main() { assert_eq!(ev("x%1", &[("x", 0.5)]), 0.5); }'),
 dict(id="c17_empty_call_unfolded", property="C08", edits=[("src/element/simplify.rs", "if args_values.len() == self.args.len() {", "if !args_values.is_empty() && args_values.len() == self.args.len() {")],
  needs="a call without arguments", breaks="a constant call without arguments is not folded",
  demo='fn main() { assert_eq!(xprs::Xprs::try_from("2 + max() + 1").unwrap().to_string(), "-inf"); }'),
 dict(id="c18_bind_error_cap", property="C09", edits=[("src/xprs.rs", "        let mut peekable = missing_vars.peekable();", "        let mut peekable = missing_vars.take(8).peekable();")],
  needs="more than eight missing variables", breaks="the bind error lists only eight of them",
  demo='fn main() { let e = match xprs::Xprs::try_from("a1+a2+a3+a4+a5+a6+a7+a8+a9").unwrap().bind("z") { Err(e) => e.to_string(), Ok(_) => panic!() }; for i in 1..10 { assert!(e.contains(&format!("a{i}")), "{e}"); } }'),
 dict(id="c19_bind_n_first", property="C09", edits=[("src/xprs.rs", "self.eval_unchecked(&vars.into_iter().zip(values).collect())", "self.eval_unchecked(&vars.into_iter().zip(values).rev().collect())")],
  needs="bind_n with a repeated name", breaks="the first value of a repeated name wins",
  demo='fn main() { let f = xprs::Xprs::try_from("x").unwrap().bind_n(["x", "x"]).unwrap(); assert_eq!(f([1.0, 2.0]), 2.0); }'),
 dict(id="c20_runtime_default", property="C09", edits=[("src/xprs.rs", "Ok(move |values: &[f64]| self.eval(&vars.iter().copied().zip(values.iter().copied()).collect()))", "Ok(move |values: &[f64]| self.eval(&vars.iter().copied().zip(values.iter().copied().chain(core::iter::repeat(0.0))).collect()))")],
  needs="bind_n_runtime called with too few values", breaks="missing values count as 0 instead of an error",
  demo='fn main() { let f = xprs::Xprs::try_from("x+y").unwrap().bind_n_runtime(&["x", "y"]).unwrap(); assert!(f(&[1.0]).is_err()); }'),
 dict(id="c21_factorial_eps", property="C10", edits=[("src/utils/factorial.rs", "    if num.fract() != ZERO {", "    if num.is_nan() || num.fract() > f64::EPSILON {")],
  needs="the factorial of a number just above a whole number", breaks="it is a number instead of NaN",
  demo=EV + 'fn main() { assert!(ev("x!", &[("x", f64::from_bits(1.0f64.to_bits() + 1))]).is_nan()); }'),
 dict(id="c22_max_of_none", property="C11", edits=[("src/utils/built_in_functions.rs", "fold(f64::NEG_INFINITY,", "fold(f64::MIN,")],
  needs="max() or the max of -infinity", breaks="max() is the smallest finite number",
  demo=EV + 'fn main() { assert_eq!(ev("max(x)", &[("x", f64::NEG_INFINITY)]), f64::NEG_INFINITY); }'),
 dict(id="c23_sum_order", property="C11", edits=[("src/utils/built_in_functions.rs", 'xprs_fn!("sum", |args| args.iter().sum());', 'xprs_fn!("sum", |args| args.iter().rev().sum());')],
  needs="a sum that rounds differently from right to left", breaks="sum adds from right to left",
  demo=EV + 'fn main() { assert_eq!(ev("sum(1e100, 1, -1e100)", &[]), 0.0); assert_eq!(ev("sum(1e100, -1e100, 1)", &[]), 1.0); }'),
 dict(id="c24_expected_merge", property="C12", edits=[("src/context.rs", "    pub fn set_expected_vars(&mut self, expected_vars: HashSet<&'names str>) {\n        self.expected_vars = Some(expected_vars);", "    pub fn set_expected_vars(&mut self, expected_vars: HashSet<&'names str>) {\n        self.expected_vars\n            .get_or_insert_with(HashSet::new)\n            .extend(expected_vars);")],
  needs="two sets of expected variables configured one after the other", breaks="the first set is still allowed",
  demo='fn main() { let mut c = xprs::Context::default(); c.set_expected_vars(["x"].into()); c.set_expected_vars(["y"].into()); assert!(xprs::Parser::new_with_ctx(c).parse("x").is_err()); }'),
 dict(id="c25_var_keeps_fn", property="C12", edits=[("src/context.rs", "    pub fn set_var<T: Into<f64>>(&mut self, name: &'names str, value: T) {\n        self.symbols.insert(name, value.into().into());", "    pub fn set_var<T: Into<f64>>(&mut self, name: &'names str, value: T) {\n        let symbol = self.symbols.entry(name).or_insert(Symbol::Variable(0.0));\n        if let Symbol::Variable(ref mut var) = *symbol {\n            *var = value.into();\n        }")],
  needs="a variable defined under the name of an earlier function", breaks="the earlier function wins",
  demo='fn main() { let mut c = xprs::Context::default().with_fn(xprs::xprs_fn!("f", f64::sin, 1)); c.set_var("f", 3.0); assert_eq!(c.get("f"), Some(&xprs::Symbol::Variable(3.0))); }'),
 dict(id="c26_expected_empty", property="C12", edits=[("src/parser.rs", "if let Some(expected) = self.ctx.get_expected_vars() {", "if let Some(expected) =\n            self.ctx.get_expected_vars().filter(|vars| !vars.is_empty())\n        {")],
  needs="an empty set of expected variables", breaks="every variable is allowed",
  demo='fn main() { let c = xprs::Context::default().with_expected_vars([].into()); assert!(xprs::Parser::new_with_ctx(c).parse("x").is_err()); }'),
 dict(id="c27_display_lowercase", property="C14", edits=[("src/element/function_call.rs", 'write!(fmt, "{}({})", self.desc.name, args.join(", "))', 'write!(\n            fmt,\n            "{}({})",\n            self.desc.name.to_ascii_lowercase(),\n            args.join(", ")\n        )')],
  needs="a function with a capital letter in its name", breaks="the displayed text names another function",
  demo='fn main() { let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_fn(xprs::xprs_fn!("Id", f64::abs, 1))); let x = p.parse("Id(x)").unwrap(); let t = x.to_string(); assert_eq!(p.parse(&t).unwrap(), x); }'),
 dict(id="c28_multiple_last", property="C15", edits=[("src/xprs.rs", "        for &var in vars {\n", "        for &var in vars.iter().rev() {\n")],
  needs="a name given twice to simplify_for_multiple", breaks="the last value wins instead of the first",
  demo='fn main() { let x = xprs::Xprs::try_from("x + y").unwrap().simplify_for_multiple(&[("x", 1.0), ("x", 2.0)]); assert_eq!(x.eval(&[("y", 0.0)].into()).unwrap(), 1.0); }'),
 dict(id="c30_macro_dyn_name", property="C16", edits=[("src/token/function.rs", "    (dyn $function:expr, $nb_args:tt) => {\n        $crate::Function::new_dyn(\n            stringify!($function),", "    (dyn $function:expr, $nb_args:tt) => {\n        $crate::Function::new_dyn(\n            stringify!(dyn $function),")],
  needs="the macro's unnamed dynamic form with an arity", breaks="the function's name is not the expression's text",
  demo='fn twice(x: f64) -> f64 { 2.0 * x } fn main() { let f = xprs::xprs_fn!(dyn twice, 1); assert_eq!(f.name, "twice"); }'),
 dict(id="c31_macro_arity_none", property="C16", edits=[("src/token/function.rs", "    ($name:expr, dyn $function:expr, $nb_args:tt) => {\n        $crate::Function::new_dyn(\n            $name,\n            $crate::xprs_fn!(wrap $function, $nb_args),\n            Some($nb_args),", "    ($name:expr, dyn $function:expr, $nb_args:tt) => {\n        $crate::Function::new_dyn(\n            $name,\n            $crate::xprs_fn!(wrap $function, $nb_args),\n            if $nb_args == 0 { None } else { Some($nb_args) },")],
  needs="a named dynamic function of arity 0", breaks="it is declared variadic",
  demo='fn main() { let f = xprs::xprs_fn!("f", dyn || 1.0, 0); assert_eq!(f.nb_args, Some(0)); }'),
 dict(id="c32_fn_eq_static", property="C17", edits=[("src/token/function.rs", "                Self::Static(func2) => func1 == func2,", "                Self::Static(func2) => {\n                    func1 == func2 || func1(&[1.0; 9]) == func2(&[1.0; 9])\n                },")],
  needs="two different functions of the same name that agree at 1", breaks="calls of different functions compare equal",
  demo='fn a(x: f64) -> f64 { x } fn b(x: f64) -> f64 { x * x } fn main() { let f = xprs::xprs_fn!("f", a, 1); let g = xprs::xprs_fn!("f", b, 1); assert!(f != g); }'),
 dict(id="c33_eq_commute_half", property="C17", edits=[("src/element/binop.rs", "                        || (self.lhs == other.rhs && self.rhs == other.lhs)", "                        || (self.lhs == other.rhs\n                            && (self.rhs == other.lhs\n                                || self.op == other.op && self.rhs == other.rhs))")],
  needs="sums a+b and c+b with a equal to b: a+b against c+b where a = b", breaks="b+b equals c+b",
  demo='fn main() { assert!(xprs::Xprs::try_from("b+b").unwrap().root != xprs::Xprs::try_from("c+b").unwrap().root); }'),
 dict(id="c34_factorial_race", property="C18", edits=[("src/utils/factorial.rs", "    #[allow(clippy::indexing_slicing)]\n    FACTORIALS[index]", "    use core::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};\n    static LAST_INDEX: AtomicUsize = AtomicUsize::new(usize::MAX);\n    static LAST_VALUE: AtomicU64 = AtomicU64::new(0);\n    if LAST_INDEX.load(Relaxed) == index {\n        return f64::from_bits(LAST_VALUE.load(Relaxed));\n    }\n    #[allow(clippy::indexing_slicing)]\n    let value = FACTORIALS[index];\n    LAST_INDEX.store(index, Relaxed);\n    LAST_VALUE.store(value.to_bits(), Relaxed);\n    value")],
  needs="two threads taking factorials of different numbers at the same time", breaks="a thread gets the other's factorial",
  demo='fn main() { let hs: Vec<_> = (0..8u32).map(|t| std::thread::spawn(move || { let x = xprs::Xprs::try_from("x!").unwrap(); let t0 = std::time::Instant::now(); let mut bad = 0; while t0.elapsed().as_secs() < 10 && bad == 0 { for n in [3 + t, 4 + t] { let want: f64 = (1..=n).map(f64::from).product(); if x.eval(&[("x", f64::from(n))].into()).unwrap() != want { bad += 1; } } } bad })).collect(); let bad: u32 = hs.into_iter().map(|h| h.join().unwrap()).sum(); assert_eq!(bad, 0); }'),
 dict(id="c35_missing_span", property="C01", edits=[("src/parser.rs", "            span: (parser.cursor - 1, 2).into(),", "            span: (parser.cursor - 1, 3).into(),")],
  needs="a missing argument right before the input's last character", breaks="the span ends beyond the input",
  demo='use miette::Diagnostic; fn main() { let s = "max(1,)"; let e = xprs::Xprs::try_from(s).unwrap_err(); let l = e.labels().unwrap().next().unwrap(); assert!(l.offset() + l.len() <= s.len()); }'),
 dict(id="c39_arity_zero", property="C04", edits=[("src/parser.rs", "if let Some(nb_args) = func.nb_args {", "if let Some(nb_args) = func.nb_args.filter(|&nb_args| nb_args > 0) {")],
  needs="a function of arity 0 called with arguments", breaks="the call is accepted",
  demo='fn main() { let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_fn(xprs::xprs_fn!("f", dyn || 1.0, 0))); assert!(p.parse("f()").is_ok()); assert!(p.parse("f(1)").is_err()); }'),
 dict(id="c40_too_many_count", property="C13", edits=[("src/parser.rs", "                            yeet!(ParseError::new_too_many_arguments(\n                                self,\n                                nb_args,\n                                args.len(),", "                            yeet!(ParseError::new_too_many_arguments(\n                                self,\n                                nb_args,\n                                usize::from(nb_args) + 1,")],
  needs="a call with two or more surplus arguments", breaks="the reported number of arguments is wrong",
  demo='fn main() { let e = xprs::Xprs::try_from("sin(1,2,3)").unwrap_err(); assert!(e.to_string().contains("got 3"), "{e}"); }'),
]
