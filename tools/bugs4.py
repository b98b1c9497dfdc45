EV = '''
fn ev(s: &str, vars: &[(&str, f64)]) -> f64 {
    let m: std::collections::HashMap<&str, f64> = vars.iter().copied().collect();
    xprs::Xprs::try_from(s).unwrap().eval(&m).unwrap()
}
'''
NIGHTLY = "nightly-2026-08-21-x86_64-unknown-linux-gnu"
P, X, S, E, C, F, B = "src/parser.rs", "src/xprs.rs", "src/element/simplify.rs", "src/element/mod.rs", "src/context.rs", "src/token/function.rs", "src/utils/built_in_functions.rs"
BUGS = [
 dict(id="e01_char_window", property="C13", edits=[(P, "            .get(self.cursor..)\n            .and_then(|rest| str::from_utf8(rest).ok())", "            .get(self.cursor..(self.cursor + 4).min(self.input.len()))\n            .and_then(|rest| str::from_utf8(rest).ok())")],
  needs="two- or three-byte illegal characters next to each other", breaks="the character reported is not the one that stands there",
  demo='fn main() { let e = xprs::Xprs::try_from("x + \\u{e9}1\\u{20ac}").unwrap_err(); assert!(e.to_string().contains(\'\\u{e9}\'), "{e}"); }'),
 dict(id="e02_dot_juxtaposed", property="C02", edits=[(P, "            b'0'..=b'9' if !self.after_number => {", "            b'0'..=b'9' | b'.' if !self.after_number => {")],
  needs="a literal that starts with a point after a name or a parenthesis", breaks="x .5 is accepted",
  demo='fn main() { assert!(xprs::Xprs::try_from("x .5").is_err()); }'),
 dict(id="e03_exp_leading_zero", property="C03", edits=[(P, "            && matches!(self.next_at(2), Some(&(b'0'..=b'9')));", "            && matches!(self.next_at(2), Some(&(b'1'..=b'9')));")],
  needs="a signed exponent that starts with a zero", breaks="1e+05 is read as 1 times e plus 5",
  demo=EV + 'fn main() { assert_eq!(ev("1e+05", &[]), 1e5); }'),
 dict(id="e04_ctx_underscore", property="C04", edits=[(P, "            .get(name)\n            .cloned()", "            .get(name)\n            .or_else(|| self.ctx.get(name.trim_end_matches('_')))\n            .cloned()")],
  needs="a name that is a symbol of the context followed by underscores", breaks="k_ denotes the symbol k",
  demo='fn main() { let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_var("k", 2)); assert!(p.parse("k_ + 1").unwrap().vars.contains("k_")); }'),
 dict(id="e05_plus_zero", property="C05", edits=[(X, "                let operand = self.eval_element(&unop.operand)?;\n                #[allow(clippy::unreachable)]\n                match unop.op {\n                    Operator::Plus => operand,", "                let operand = self.eval_element(&unop.operand)?;\n                #[allow(clippy::unreachable)]\n                match unop.op {\n                    Operator::Plus => 0.0 + operand,")],
  needs="a unary plus on a negative zero, without compile-time optimisations", breaks="1 / (+x) at -0 is +inf", features="pemdas",
  demo=EV + 'fn main() { assert_eq!(ev("1 / (+x)", &[("x", -0.0)]), f64::NEG_INFINITY); }'),
 dict(id="e06_minus_sub", property="C05", edits=[(X, "                let operand = self.eval_element_unchecked(&unop.operand);\n                #[allow(clippy::unreachable)]\n                match unop.op {\n                    Operator::Plus => operand,\n                    Operator::Minus => -operand,", "                let operand = self.eval_element_unchecked(&unop.operand);\n                #[allow(clippy::unreachable)]\n                match unop.op {\n                    Operator::Plus => operand,\n                    Operator::Minus => 0.0 - operand,")],
  needs="the negation of zero, unchecked", breaks="the unchecked evaluation gives +0 where the checked one gives -0",
  demo='fn main() { let x = xprs::Xprs::try_from("1 / (-x)").unwrap(); let m = [("x", 0.0)].into(); assert_eq!(x.eval_unchecked(&m), x.eval(&m).unwrap()); }'),
 dict(id="e07_update_vars_number", property="C06", edits=[(X, "        self.vars.clear();\n", "        // a number needs no variables, an unchanged set needs no update\n        if let Element::Variable(var) = self.root {\n            if self.vars.contains(var) {\n                return;\n            }\n        }\n        self.vars.clear();\n")],
  needs="a simplification that leaves a single variable", breaks="the variables that went away stay in the set",
  demo='fn main() { let x = xprs::Xprs::try_from("x + y").unwrap().simplify_for(("y", 0.0)); assert_eq!(x.vars.len(), 1); }'),
 dict(id="e08_div_recip", property="C07", edits=[(S, "            // a / a => 1\n", "            // a / c => a * (1 / c), when it is exact\n            BinOp {\n                op: Divide,\n                lhs,\n                rhs: Number(div),\n            } if div.recip() * div == 1.0 && div.recip().recip() == div => {\n                BinOp::new_element(Times, lhs, Number(div.recip()))\n            },\n            // a / a => 1\n")],
  needs="a division by a constant that is not a power of two", breaks="the quotient is off by an ulp",
  demo=EV + 'fn main() { assert_eq!(ev("x / 3", &[("x", 5.0)]), 5.0 / 3.0); }'),
 dict(id="e09_times_assoc", property="C07", edits=[(S, "            // 0/0 => NaN // special case\n", "            // (c * a) * d => (c * d) * a\n            BinOp {\n                op: Times,\n                lhs: Element::BinOp(inner),\n                rhs: Number(outer),\n            } if inner.op == Times && matches!(inner.lhs, Number(num) if num.fract() == 0.0) && outer.fract() == 0.0 => {\n                let inner = *inner;\n                let product = BinOp::new(Times, inner.lhs, Number(outer)).simplify();\n                BinOp::new_element(Times, product, inner.rhs)\n            },\n            // 0/0 => NaN // special case\n"), ("src/element/binop.rs", "    const fn new(op: Operator", "    pub(crate) const fn new(op: Operator")],
  needs="a product with two whole constants that overflows, or is rounded twice", breaks="the product is rounded in another order",
  demo=EV + 'fn main() { assert_eq!(ev("3 * x * 7", &[("x", 0.1)]), 3.0 * 0.1 * 7.0); }'),
 dict(id="e10_fold_nan_error", property="C08", edits=[(P, "        if let Some(&tok) = parser_impl.next_trim() {", "        if matches!(root, Element::Number(num) if num.is_nan()) {\n            // nothing can be made of it\n            yeet!(ParseError::new_unexpected_end_of_expression(&parser_impl));\n        }\n\n        if let Some(&tok) = parser_impl.next_trim() {")],
  needs="a constant expression that is NaN", breaks="it is rejected with compile-time optimisations only",
  demo='fn main() { assert!(xprs::Xprs::try_from("0 * (1 / 0)").is_ok() && xprs::Xprs::try_from("(1/0) - (1/0)").is_ok()); }'),
 dict(id="e11_fold_factorial_big", property="C08", edits=[(S, "                Element::Number(num) => Element::Number(factorial(num)),", "                // the others are left to the evaluation\n                Element::Number(num) if num <= 170.0 => {\n                    Element::Number(factorial(num))\n                },\n                Element::Number(_) => self.into(),")],
  needs="the factorial of a constant above 170 or NaN", breaks="171! is not folded",
  demo='fn main() { assert_eq!(xprs::Xprs::try_from("171!").unwrap().to_string(), "inf"); }'),
 dict(id="e12_surplus_error", property="C09", edits=[(X, "        Ok(move |values: &[f64]| self.eval(", "        Ok(move |values: &[f64]| if values.len() > vars.len() && !self.vars.is_empty() { Err(EvalError(String::new())) } else { self.eval("), (X, "zip(values.iter().copied()).collect()))", "zip(values.iter().copied()).collect()) })")],
  needs="more values than names in the runtime-sized binding", breaks="surplus values are an error",
  demo='fn main() { let f = xprs::Xprs::try_from("x + 1").unwrap().bind_n_runtime(&["x"]).unwrap(); assert_eq!(f(&[1.0, 2.0]), Ok(2.0)); }'),
 dict(id="e14_factorial_neg_zero", property="C10", edits=[("src/utils/factorial.rs", "    if num < ZERO {", "    if num.is_sign_negative() {")],
  needs="the factorial of negative zero", breaks="(-0)! is NaN",
  demo=EV + 'fn main() { assert_eq!(ev("x!", &[("x", -0.0)]), 1.0); }'),
 dict(id="e15_factorial_table", property="C10", edits=[("src/utils/factorial.rs", "    4.274_883_284_060_025_5e69,", "    4.274_883_284_060_025e69,")],
  needs="the factorial of 53", breaks="53! is off by an ulp",
  demo=EV + 'fn main() { assert_eq!(ev("x!", &[("x", 53.0)]), 53.0 * ev("x!", &[("x", 52.0)])); }'),
 dict(id="e16_log_ratio", property="C11", edits=[(B, 'xprs_fn!("log", f64::log10, 1)', 'xprs_fn!("log", |x: f64| x.log(10.0), 1)')],
  needs="the logarithm of a power of ten such as 1000", breaks="log(1000) is 2.9999999999999996",
  demo=EV + 'fn main() { assert_eq!(ev("log(x)", &[("x", 1000.0)]), 3.0); }'),
 dict(id="e17_max_fold_first", property="C11", edits=[(B, "    args.iter().fold(f64::NEG_INFINITY, |acc, &x| acc.max(x))", "    args.iter().fold(f64::NEG_INFINITY, |acc, &x| if acc > x { acc } else { x })")],
  needs="a NaN among the arguments of max", breaks="max(1, NaN) is NaN",
  demo=EV + 'fn main() { assert_eq!(ev("max(1, x)", &[("x", f64::NAN)]), 1.0); }'),
 dict(id="e18_symbols_keep_empty", property="C12", edits=[(C, "        self.symbols = symbols;\n", "        // an empty table replaces nothing\n        if !symbols.is_empty() {\n            self.symbols = symbols;\n        }\n")],
  needs="an empty symbol table that replaces another", breaks="the earlier definitions are kept",
  demo='fn main() { let c = xprs::Context::default().with_var("k", 2).with_symbols(Default::default()); assert!(c.get("k").is_none()); }'),
 dict(id="e19_set_fn_keeps_var", property="C12", edits=[(C, "    pub fn set_fn(&mut self, func: Function) {\n", "    pub fn set_fn(&mut self, func: Function) {\n        // the same function again\n        if matches!(self.symbols.get(func.name), Some(Symbol::Function(old)) if old.nb_args == func.nb_args && old.name.len() > 1 && func.nb_args.is_some()) {\n            return;\n        }\n")],
  needs="a function redefined, with the same arity, by set_fn", breaks="the first definition is kept",
  demo='fn main() { let mut c = xprs::Context::default(); c.set_fn(xprs::xprs_fn!("ff", |x: f64| x, 1)); c.set_fn(xprs::xprs_fn!("ff", |x: f64| x + 1.0, 1)); assert_eq!(xprs::Parser::new_with_ctx(c).parse("ff(1)").unwrap().eval_no_vars().unwrap(), 2.0); }'),
 dict(id="e20_arg_span_trim", property="C13", edits=[(P, "            kind: ErrorKind::TooManyArguments(expected, got),\n            span: (start..parser.cursor).into(),", "            kind: ErrorKind::TooManyArguments(expected, got),\n            // leave out the arguments that are fine\n            span: (start.max(parser.cursor.saturating_sub(80))..parser.cursor).into(),")],
  needs="a call with too many arguments of more than 80 bytes", breaks="the span does not start at the function's name",
  demo='use miette::Diagnostic; fn main() { let s = format!("sin(1, {}1)", " ".repeat(100)); let e = xprs::Xprs::try_from(s.as_str()).unwrap_err(); assert_eq!(e.labels().unwrap().next().unwrap().offset(), 0); }'),
 dict(id="e21_display_name_minus", property="C14", edits=[("src/element/unop.rs", '                write!(fmt, "({}{})", self.op, self.operand)\n', '                match self.operand {\n                    // no need for parentheses around a call\n                    Element::Function(_) => {\n                        write!(fmt, "{}{}", self.op, self.operand)\n                    },\n                    Element::Number(_)\n                    | Element::BinOp(_)\n                    | Element::UnOp(_)\n                    | Element::Variable(_) => {\n                        write!(fmt, "({}{})", self.op, self.operand)\n                    },\n                }\n')],
  needs="a negated call as the base of a power", breaks="(-sin(x))^2 is displayed as (-sin(x) ^ 2)",
  demo=EV + 'fn main() { let x = xprs::Xprs::try_from("(-sin(x))^2").unwrap(); let s = x.to_string(); assert!(ev(&s, &[("x", 1.0)]) > 0.0, "{s}"); }'),
 dict(id="e22_simplify_direct_args", property="C15", edits=[(S, "        self.args = self\n            .args\n            .into_iter()\n            .map(|arg| arg.simplify_for(var))\n            .collect();\n", "        // nothing to replace in constants and other variables\n        if self.args.len() < 3 || !self.args.iter().take(2).all(|arg| matches!(*arg, Element::Number(_))) {\n            self.args = self\n                .args\n                .into_iter()\n                .map(|arg| arg.simplify_for(var))\n                .collect();\n        }\n")],
  needs="a call whose first two arguments are numbers", breaks="the variable is left in the other arguments",
  demo='fn main() { let x = xprs::Xprs::try_from("max(1, 2, x)").unwrap().simplify_for(("x", 3.0)); assert!(x.vars.is_empty()); }'),
 dict(id="e23_macro_static_name", property="C16", edits=[(F, "    ($function:expr) => {\n        $crate::Function::new_static(stringify!($function), $function, None)\n    };", "    ($function:expr) => {\n        $crate::Function::new_static(\n            {\n                let path = stringify!($function);\n                path\n            },\n            |args| if let [value] = *args { $function(&[value, value][..1]) } else { $function(args.get(..args.len().min(64)).unwrap_or(args)) },\n            None,\n        )\n    };")],
  needs="an unnamed static variadic function called with more than 64 values", breaks="the function does not receive the whole list",
  demo='fn count(a: &[f64]) -> f64 { a.len() as f64 } fn main() { let f = xprs::xprs_fn!(count); assert_eq!((f.func)(&[0.0; 100]), 100.0); }'),
 dict(id="e24_eq_unop_any", property="C17", edits=[("src/element/unop.rs", "#[derive(Debug, PartialEq, PartialOrd, Clone)]\npub struct UnOp<'a> {", "#[derive(Debug, PartialOrd, Clone)]\npub struct UnOp<'a> {"), ("src/element/unop.rs", "impl fmt::Display for UnOp<'_> {", "impl PartialEq for UnOp<'_> {\n    fn eq(&self, other: &Self) -> bool {\n        match (&self.operand, &other.operand) {\n            // -(-a) and +(-a): compare what is inside first\n            (&Element::UnOp(ref inner), &Element::UnOp(ref other_inner)) => {\n                inner == other_inner\n                    && (self.op == other.op || self.op != Operator::Factorial && other.op != Operator::Factorial)\n            },\n            (operand, other_operand) => {\n                self.op == other.op && operand == other_operand\n            },\n        }\n    }\n}\n\nimpl fmt::Display for UnOp<'_> {")],
  needs="signs of signs", breaks="-(-x) == +(-x)", features="pemdas",
  demo='fn main() { assert_ne!(xprs::Xprs::try_from("-(-x)").unwrap(), xprs::Xprs::try_from("+(-x)").unwrap()); }'),
 dict(id="e25_literal_cache", property="C18", edits=[(P, "        let num = ident.replace('_', \"\").parse().map_err(\n            #[cold]\n            |_err| ParseError::new_malformed_number(self, ident),\n        )?;\n", "        // long literals tend to come again\n        static LAST: std::sync::Mutex<([u8; 12], usize, f64)> =\n            std::sync::Mutex::new(([0; 12], 0, 0.0));\n        let mut key = [0; 12];\n        key.iter_mut().zip(ident.bytes()).for_each(|(to, from)| *to = from);\n        let cached = LAST\n            .lock()\n            .ok()\n            .filter(|last| ident.len() > 8 && last.0 == key && last.1 == ident.len())\n            .map(|last| last.2);\n        let num = match cached {\n            Some(num) => num,\n            None => ident.replace('_', \"\").parse().map_err(\n                #[cold]\n                |_err| ParseError::new_malformed_number(self, ident),\n            )?,\n        };\n        if let Ok(mut last) = LAST.lock() {\n            *last = (key, ident.len(), num);\n        }\n")],
  needs="two consecutive literals of the same length and with the same first twelve characters", breaks="the second one has the value of the first",
  demo=EV + 'fn main() { assert_eq!(ev("1234567890.125", &[]), 1234567890.125); assert_eq!(ev("1234567890.126", &[]), 1234567890.126); }'),
 dict(id="e26_unop_read_write", property="C19", edits=[(S, "        self.operand = self.operand.simplify_for(var);\n", "        // the operand is moved out and back in\n        #[allow(unsafe_code)]\n        unsafe {\n            let next = core::ptr::read(&self.operand).simplify_for(var);\n            core::ptr::write(&mut self.operand, next);\n        }\n")],
  needs="a user function below a unary operator that panics while simplifying for a variable", breaks="the operand is dropped twice",
  demo='fn main() { let f = xprs::xprs_fn!("f", dyn |_: &[f64]| -> f64 { panic!("x") }); let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_fn(f)); let x = p.parse("-f(x)").unwrap(); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || x.simplify_for(("x", 1.0)))); assert!(r.is_err()); }'),
 dict(id="e27_missing_arg_span", property="C01", edits=[(P, "            span: (parser.cursor - 1, 2).into(),", "            span: (parser.cursor - 1, 3).into(),")],
  needs="a missing last argument at the end of the input", breaks="the span ends after the input",
  demo='use miette::Diagnostic; fn main() { let s = "max(1,)"; let e = xprs::Xprs::try_from(s).unwrap_err(); let l = e.labels().unwrap().next().unwrap(); assert!(l.offset() + l.len() <= s.len()); }'),
 dict(id="e28_args_semicolon_ws", property="C02", edits=[(P, "        // no arguments\n        if self.next_trim() == Some(&b')') {", "        // no arguments\n        if self.current() == Some(&b')') {")],
  needs="white space between the parentheses of an empty call", breaks="sum( ) is rejected",
  demo='fn main() { assert!(xprs::Xprs::try_from("sum( )").is_ok()); }'),
 dict(id="e29_not_declared_label", property="C12", edits=[(P, "available_vars.join(\"`, `\")", "available_vars\n                        .iter()\n                        .map(String::as_str)\n                        .filter(|name| name.len() > 1 || available_vars.len() < 10)\n                        .collect::<Vec<_>>()\n                        .join(\"`, `\")")],
  needs="ten expected variables or more, some of one letter", breaks="not all of the allowed variables are reported",
  demo='use miette::Diagnostic; fn main() { let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_expected_vars("abcdfghijkl".split("").filter(|s| !s.is_empty()).collect())); let e = p.parse("x").unwrap_err(); assert!(e.help().unwrap().to_string().contains("`a`")); }'),
 dict(id="e30_eval_shared_missing", property="C05", edits=[(X, "                let left = self.eval_element(&binop.lhs)?;\n                let right = self.eval_element(&binop.rhs)?;\n", "                let left = self.eval_element(&binop.lhs)?;\n                // nothing times zero\n                if binop.op == Operator::Modulo && left == 0.0 && matches!(binop.rhs, Element::Variable(_)) {\n                    return Ok(left);\n                }\n                let right = self.eval_element(&binop.rhs)?;\n")],
  needs="a remainder of zero by a variable without a value, or with the value zero", breaks="a number although a variable is missing",
  demo='fn main() { let x = xprs::Xprs::try_from("x % y").unwrap(); assert!(x.eval(&[("x", 0.0)].into()).is_err()); }'),
]
