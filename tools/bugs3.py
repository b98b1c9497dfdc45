EV = '''
fn ev(s: &str, vars: &[(&str, f64)]) -> f64 {
    let m: std::collections::HashMap<&str, f64> = vars.iter().copied().collect();
    xprs::Xprs::try_from(s).unwrap().eval(&m).unwrap()
}
'''
NIGHTLY = "nightly-2026-08-21-x86_64-unknown-linux-gnu"
BUGS = [
 dict(id="d01_accent_ident", property="C04", edits=[("src/parser.rs", "|&ch| matches!(ch, b'_' | b'\\'' | b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9'),", "|&ch| matches!(ch, b'_' | b'\\'' | b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | 0xC2 | 0xB2 | 0xB3),")],
  needs="an identifier followed by a superscript two or three", breaks="x² is one variable instead of an illegal character",
  demo='fn main() { assert!(xprs::Xprs::try_from("x\\u{b2} + 1").is_err()); }'),
 dict(id="d02_exp_underscore", property="C03", edits=[("src/parser.rs", "        self.skip_while(u8::is_ascii_digit);\n        let end", "        self.skip_while(|&ch| matches!(ch, b'0'..=b'9' | b'_'));\n        let end")],
  needs="an underscore right after an exponent", breaks="an underscore after an exponent is taken as part of the literal",
  demo='fn main() { assert!(xprs::Xprs::try_from("1e1_0").is_err()); }'),
 dict(id="d03_literal_40", property="C03", edits=[("src/parser.rs", "        let num = ident.replace('_', \"\").parse().map_err(", "        // no f64 needs more than 40 characters\n        let num = ident\n            .replace('_', \"\")\n            .chars()\n            .take(40)\n            .collect::<String>()\n            .parse()\n            .map_err(")],
  needs="a literal of more than forty characters", breaks="the rest of the literal is ignored",
  demo='fn main() { let s = "1".repeat(50); assert_eq!(xprs::Xprs::try_from(s.as_str()).unwrap().eval_no_vars().unwrap(), s.parse::<f64>().unwrap()); }'),
 dict(id="d04_trailing_comma", property="C02", edits=[("src/parser.rs", "                Some(&b',') => self.cursor += 1,\n                Some(&b')') => break,", "                Some(&b',') => {\n                    self.cursor += 1;\n                    // the end of the list\n                    if args.len() > 2 && self.next_trim() == Some(&b')') {\n                        break;\n                    }\n                },\n                Some(&b')') => break,")],
  needs="a call with at least three arguments and a trailing comma", breaks="max(1,2,3,) is accepted",
  demo='fn main() { assert!(xprs::Xprs::try_from("max(1,2,3,)").is_err()); }'),
 dict(id="d05_arity_saturate", property="C04", edits=[("src/parser.rs", "match args.len().cmp(&nb_args.into()) {", "match u8::try_from(args.len()).unwrap_or(u8::MAX).cmp(&nb_args) {")],
  needs="a function of 255 arguments called with more", breaks="a call with 256 arguments of a function of 255 is accepted",
  demo='fn main() { let f = xprs::Function::new_static("f", |a| a.len() as f64, Some(255)); let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_fn(f)); let s = format!("f({})", vec!["1"; 256].join(",")); assert!(p.parse(&s).is_err()); let s = format!("f({})", vec!["1"; 255].join(",")); assert!(p.parse(&s).is_ok()); }'),
 dict(id="d06_eval_err_trim", property="C05", edits=[("src/xprs.rs", "                || EvalError(name.to_owned()),", "                || EvalError(name.trim_matches('\\'').to_owned()),")],
  needs="a missing variable whose name ends with a quote", breaks="the error names x instead of x'",
  demo='fn main() { let e = xprs::Xprs::try_from("x\'").unwrap().eval_no_vars().unwrap_err(); assert!(e.to_string().contains("\'x\'\'"), "{e}"); }'),
 dict(id="d07_args_cap", property="C05", edits=[("src/xprs.rs", "                    .map(|arg| self.eval_element_unchecked(arg))\n", "                    .map(|arg| self.eval_element_unchecked(arg))\n                    .take(usize::from(u8::MAX))\n")],
  needs="a variadic call with more than 255 arguments, unchecked", breaks="the unchecked evaluation ignores the arguments after the 255th",
  demo='fn main() { let s = format!("x + sum({})", vec!["x"; 300].join(",")); let x = xprs::Xprs::try_from(s.as_str()).unwrap(); let m = [("x", 1.0)].into(); assert_eq!(x.eval_unchecked(&m), x.eval(&m).unwrap()); }'),
 dict(id="d08_reassociate", property="C07", edits=[("src/element/simplify.rs", "            // a % 0 => NaN\n", "            // (a ^ n) ^ m => a ^ (n * m)\n            BinOp {\n                op: Power,\n                lhs: Element::BinOp(ref inner),\n                rhs: Number(outer_exp),\n            } if inner.op == Power && matches!(inner.rhs, Number(_)) => {\n                let Number(inner_exp) = inner.rhs else {\n                    return self.into();\n                };\n                BinOp::new_element(\n                    Power,\n                    inner.lhs.clone(),\n                    Number(inner_exp * outer_exp),\n                )\n            },\n            // a % 0 => NaN\n")],
  needs="a power of a power with an even inner exponent and a negative base", breaks="(x^2)^0.5 is simplified to x^1 and has the wrong sign",
  demo=EV + 'fn main() { assert_eq!(ev("(x^2)^0.5", &[("x", -3.0)]), 3.0); }'),
 dict(id="d09_zero_pow", property="C07", edits=[("src/element/simplify.rs", "            // a ^ 0 => 1\n", "            // 0 ^ a => 0\n            BinOp {\n                op: Power,\n                lhs,\n                rhs: Element::Variable(_),\n            } if lhs == Number(0.0) => Number(0.0),\n            // a ^ 0 => 1\n")],
  needs="zero to the power of a variable that is zero", breaks="0^x is simplified to 0 although 0^0 is 1",
  demo=EV + 'fn main() { assert_eq!(ev("0^x", &[("x", 0.0)]), 1.0); }'),
 dict(id="d10_double_minus", property="C07", edits=[("src/element/simplify.rs", "                Element::Number(num) => Element::Number(-num),\n                Element::UnOp(_)\n                | Element::BinOp(_)", "                Element::Number(num) => Element::Number(-num),\n                // -(a - b) => b - a\n                Element::BinOp(binop) if matches!(binop.op, Operator::Minus | Operator::Modulo) => {\n                    BinOp::new_element(binop.op, binop.rhs, binop.lhs)\n                },\n                Element::UnOp(_)\n                | Element::BinOp(_)")],
  needs="a negated remainder", breaks="-(a % b) is simplified to b % a",
  demo=EV + 'fn main() { assert_eq!(ev("-(a % b)", &[("a", 7.0), ("b", 4.0)]), -3.0); }'),
 dict(id="d11_fold_mod", property="C08", edits=[("src/element/simplify.rs", "                    Modulo => lhs % rhs,", "                    Modulo => (lhs / rhs).trunc().mul_add(-rhs, lhs),")],
  needs="a constant remainder with a large quotient or an infinite divisor", breaks="the folded remainder differs from the evaluated one",
  demo='fn main() { assert_eq!(xprs::Xprs::try_from("10 ^ 300 % 7").unwrap().eval_no_vars().unwrap(), 1e300_f64 % 7.0); assert_eq!(xprs::Xprs::try_from("1e300 % 7").unwrap().eval_no_vars().unwrap(), 1e300_f64 % 7.0); }'.replace('assert_eq!(xprs::Xprs::try_from("10 ^ 300 % 7").unwrap().eval_no_vars().unwrap(), 1e300_f64 % 7.0); ', '')),
 dict(id="d12_fold_finite", property="C08", edits=[("src/element/simplify.rs", "            self.call(&args_values).into()\n", "            let value = self.call(&args_values);\n            // keep the call readable when there is nothing to gain\n            if value.is_nan() {\n                return self.into();\n            }\n            value.into()\n")],
  needs="a constant call whose value is NaN", breaks="the constant call is not folded",
  demo='fn main() { assert_eq!(xprs::Xprs::try_from("1 + sqrt(-1)").unwrap().to_string(), "NaN"); }'),
 dict(id="d13_runtime_len", property="C09", edits=[("src/xprs.rs", "Ok(move |values: &[f64]| self.eval(&vars.iter().copied().zip(values.iter().copied()).collect()))", "Ok(move |values: &[f64]| match vars.get(values.len()) {\n            Some(&missing) => Err(EvalError(missing.to_owned())),\n            None => self.eval(&vars.iter().copied().zip(values.iter().copied()).collect()),\n        })")],
  needs="a runtime-sized binding with a name the expression does not use, called without its value", breaks="the call fails although every needed value is there",
  demo='fn main() { let f = xprs::Xprs::try_from("x").unwrap().bind_n_runtime(&["x", "y"]).unwrap(); assert_eq!(f(&[2.0]).unwrap(), 2.0); }'),
 dict(id="d14_bind3_first", property="C09", edits=[("src/xprs.rs", "self.eval_unchecked(&[(var1, val1), (var2, val2), (var3, val3)].into())", "self.eval_unchecked(&[(var3, val3), (var2, val2), (var1, val1)].into())")],
  needs="bind3 with a repeated name", breaks="the first value wins instead of the last",
  demo='fn main() { let f = xprs::Xprs::try_from("x + y").unwrap().bind3("x", "y", "x").unwrap(); assert_eq!(f(1.0, 2.0, 4.0), 6.0); }'),
 dict(id="d16_hypot_naive", property="C11", edits=[("src/utils/built_in_functions.rs", 'xprs_fn!("hypot", f64::hypot, 2)', 'xprs_fn!("hypot", |x: f64, y: f64| x.mul_add(x, y * y).sqrt(), 2)')],
  needs="a hypotenuse whose square overflows", breaks="hypot(1e200, 1e200) is infinite",
  demo=EV + 'fn main() { assert!(ev("hypot(x, x)", &[("x", 1e200)]).is_finite()); }'),
 dict(id="d17_mean_running", property="C11", edits=[("src/utils/built_in_functions.rs", "    args.iter().sum::<f64>() / args.len() as f64\n", "    // avoids the overflow of the sum\n    args.iter().map(|x| x / args.len() as f64).sum::<f64>()\n")],
  needs="a mean whose terms are not exactly divisible, or no argument", breaks="the mean differs from the sum divided by the count",
  demo=EV + 'fn main() { assert!(ev("mean()", &[]).is_nan()); }'),
 dict(id="d18_expected_count", property="C12", edits=[("src/parser.rs", "        if let Some(expected) = self.ctx.get_expected_vars() {\n", "        if let Some(expected) = self\n            .ctx\n            .get_expected_vars()\n            .filter(|expected| !xprs.vars.is_superset(expected))\n        {\n")],
  needs="an expression that uses every expected variable and an undeclared one", breaks="the undeclared variable is accepted",
  demo='fn main() { let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_expected_vars(["x"].into())); assert!(p.parse("x + y").is_err()); }'),
 dict(id="d19_quote_clean", property="C13", edits=[("src/parser.rs", "            kind: ErrorKind::MalformedNumber(ident.to_owned()),", "            kind: ErrorKind::MalformedNumber(\n                ident.trim_end_matches('_').to_owned(),\n            ),")],
  needs="a malformed number that ends with an underscore", breaks="the quoted text is not the literal",
  demo='fn main() { let e = xprs::Xprs::try_from("1.2.3_").unwrap_err(); assert!(e.to_string().contains("`1.2.3_`"), "{e}"); }'),
 dict(id="d20_display_flat", property="C14", edits=[("src/element/binop.rs", "            Operator::Plus\n            | Operator::Minus\n            | Operator::Times\n            | Operator::Divide\n            | Operator::Modulo\n            | Operator::Factorial => {\n                write!(fmt, \"({} {} {})\", self.lhs, self.op, self.rhs)", "            Operator::Minus\n                if matches!(self.rhs, Element::Function(ref call) if call.args.len() > 1 && call.desc.nb_args.is_none()) =>\n            {\n                write!(fmt, \"{} {} {}\", self.lhs, self.op, self.rhs)\n            },\n            Operator::Plus\n            | Operator::Minus\n            | Operator::Times\n            | Operator::Divide\n            | Operator::Modulo\n            | Operator::Factorial => {\n                write!(fmt, \"({} {} {})\", self.lhs, self.op, self.rhs)")],
  needs="a subtracted variadic call inside a product", breaks="the parentheses of the difference are missing",
  demo=EV + 'fn main() { let x = xprs::Xprs::try_from("2*(x - max(y, z))").unwrap(); let s = x.to_string(); let m = [("x", 1.0), ("y", 2.0), ("z", 5.0)]; assert_eq!(ev(&s, &m), -8.0, "{s}"); }'),
 dict(id="d21_display_args16", property="C14", edits=[("src/element/function_call.rs", '            .map(|arg| format!("{arg}"))\n            .collect::<Vec<_>>();', '            .map(|arg| format!("{arg}"))\n            .filter(|arg| !arg.is_empty() && arg != "0")\n            .collect::<Vec<_>>();')],
  needs="a call with a zero argument", breaks="zero arguments are not displayed",
  demo='fn main() { let x = xprs::Xprs::try_from("max(0, x, y)").unwrap(); assert_eq!(x.to_string(), "max(0, x, y)"); }'),
 dict(id="d22_simplify_ignore_case", property="C15", edits=[("src/element/simplify.rs", "Self::Variable(name) if name == var.0 => Self::Number(var.1),", "Self::Variable(name)\n                if name == var.0\n                    || (name.len() > 1\n                        && name.eq_ignore_ascii_case(var.0)) =>\n            {\n                Self::Number(var.1)\n            },")],
  needs="two variables of more than a letter that differ by their case", breaks="simplifying for one of them replaces the other as well",
  demo='fn main() { let x = xprs::Xprs::try_from("ab + AB").unwrap().simplify_for(("ab", 1.0)); assert!(x.vars.contains("AB")); }'),
 dict(id="d23_simplify_nan", property="C15", edits=[("src/element/simplify.rs", "Self::Variable(name) if name == var.0 => Self::Number(var.1),", "Self::Variable(name) if name == var.0 && !var.1.is_nan() => {\n                Self::Number(var.1)\n            },")],
  needs="simplifying for a NaN value", breaks="the variable stays in the expression",
  demo='fn main() { let x = xprs::Xprs::try_from("x + 1").unwrap().simplify_for(("x", f64::NAN)); assert!(x.vars.is_empty()); }'),
 dict(id="d24_multi_skip_zero", property="C15", edits=[("src/xprs.rs", "        for &var in vars {\n            tmp = tmp.simplify_for(var);\n        }\n", "        for (idx, &var) in vars.iter().enumerate() {\n            // a name only counts once\n            if vars.iter().skip(idx + 1).any(|next| next.0 == var.0) {\n                continue;\n            }\n            tmp = tmp.simplify_for(var);\n        }\n")],
  needs="simplifying for several values with a repeated name", breaks="the last value given for a name is used",
  demo='fn main() { let x = xprs::Xprs::try_from("x + 1").unwrap().simplify_for_multiple(&[("x", 1.0), ("x", 2.0)]); assert_eq!(x.eval_no_vars().unwrap(), 2.0); }'),
 dict(id="d25_macro_dyn_none", property="C16", edits=[("src/token/function.rs", "    ($name:expr, dyn $function:expr) => {\n        $crate::Function::new_dyn($name, $function, None)\n    };", "    ($name:expr, dyn $function:expr) => {\n        $crate::Function::new_dyn(\n            $name,\n            move |args: &[f64]| $function(args.get(..255).unwrap_or(args)),\n            None,\n        )\n    };")],
  needs="a dynamic variadic function called with more than 255 values", breaks="the function does not receive the whole list",
  demo='fn main() { let f = xprs::xprs_fn!("f", dyn |a: &[f64]| a.len() as f64); let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_fn(f)); let s = format!("f({})", vec!["1"; 300].join(",")); assert_eq!(p.parse(&s).unwrap().eval_no_vars().unwrap(), 300.0); }'),
 dict(id="d26_macro_min_args", property="C16", edits=[("src/token/function.rs", "        move |args| $function(args[0], args[1], args[2], args[3], args[4], args[5], args[6])\n", "        move |args| $function(args[0], args[1], args[2], args[3], args[4], args[6], args[5])\n")],
  needs="a function of seven arguments", breaks="the last two arguments are swapped",
  demo='fn main() { let f = xprs::xprs_fn!("f", |_a: f64, _b: f64, _c: f64, _d: f64, _e: f64, f: f64, g: f64| f - g, 7); assert_eq!((f.func)(&[0.0, 0.0, 0.0, 0.0, 0.0, 3.0, 1.0]), 2.0); }'),
 dict(id="d27_call_eq_len", property="C17", edits=[("src/element/function_call.rs", "#[derive(Debug, PartialEq, PartialOrd, Clone)]\npub struct FunctionCall<'a> {", "#[derive(Debug, PartialOrd, Clone)]\npub struct FunctionCall<'a> {"), ("src/element/function_call.rs", "impl fmt::Display for FunctionCall<'_> {", "impl PartialEq for FunctionCall<'_> {\n    fn eq(&self, other: &Self) -> bool {\n        self.desc == other.desc\n            && self\n                .args\n                .iter()\n                .zip(&other.args)\n                .all(|(arg, other_arg)| arg == other_arg)\n    }\n}\n\nimpl fmt::Display for FunctionCall<'_> {")],
  needs="two calls of a variadic function, the arguments of one a prefix of the other's", breaks="max(a, b) == max(a, b, 2a), so that their difference is simplified to zero",
  demo='fn main() { assert_ne!(xprs::Xprs::try_from("max(a, b)").unwrap(), xprs::Xprs::try_from("max(a, b, 2a)").unwrap()); }'),
 dict(id="d28_number_eq_eps", property="C17", edits=[("src/element/mod.rs", "#[derive(Debug, PartialEq, PartialOrd, Clone)]\n#[non_exhaustive]\npub enum Element<'a> {", "#[derive(Debug, PartialOrd, Clone)]\n#[non_exhaustive]\npub enum Element<'a> {"), ("src/element/mod.rs", "pub(crate) struct Base", "impl PartialEq for Element<'_> {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (Self::Number(num), Self::Number(other_num)) => {\n                (num - other_num).abs() <= f64::MIN_POSITIVE\n            },\n            (Self::BinOp(binop), Self::BinOp(other_binop)) => {\n                binop == other_binop\n            },\n            (Self::UnOp(unop), Self::UnOp(other_unop)) => unop == other_unop,\n            (Self::Function(func), Self::Function(other_func)) => {\n                func == other_func\n            },\n            (Self::Variable(var), Self::Variable(other_var)) => {\n                var == other_var\n            },\n            _ => false,\n        }\n    }\n}\n\npub(crate) struct Base")],
  needs="numbers near zero, or infinite", breaks="tiny numbers compare equal to zero and infinity differs from itself",
  demo=EV + 'fn main() { assert_eq!(ev("x * 1e-308", &[("x", 1e308)]), 1e308 * 1e-308); }'),
 dict(id="d29_static_counter", property="C18", edits=[("src/parser.rs", "        let mut vars: HashSet<&str> = HashSet::default();\n        root.find_variables(&mut vars);\n", "        let mut vars: HashSet<&str> = HashSet::default();\n        root.find_variables(&mut vars);\n        // a pathological input only has to be found once\n        static PARSED: core::sync::atomic::AtomicUsize =\n            core::sync::atomic::AtomicUsize::new(0);\n        let parsed = PARSED.fetch_max(vars.len(), core::sync::atomic::Ordering::Relaxed);\n        if vars.is_empty() && parsed > 20 {\n            return Ok(Xprs { root: crate::element::Simplify::simplify(root), vars });\n        }\n")],
  needs="an expression with more than twenty variables parsed before, without compile-time optimisations", breaks="a later constant expression is displayed differently", features="pemdas",
  demo='fn main() { let a = xprs::Xprs::try_from("1 + 2").unwrap().to_string(); let s = (0..30).map(|i| format!("v{i}")).collect::<Vec<_>>().join("+"); let _ = xprs::Xprs::try_from(s.as_str()).unwrap(); let b = xprs::Xprs::try_from("1 + 2").unwrap().to_string(); assert_eq!(a, b); }'),
 dict(id="d34_find_vars_base", property="C06", edits=[("src/element/mod.rs", "                binop.lhs.find_variables(vars);\n                binop.rhs.find_variables(vars);\n", "                binop.lhs.find_variables(vars);\n                if !matches!(*(&binop.rhs, &binop.lhs).0, Self::BinOp(ref inner) if inner.lhs == binop.lhs) {\n                    binop.rhs.find_variables(vars);\n                }\n")],
  needs="a right operand that starts with the left operand", breaks="the other variables of that operand are missing from the set",
  demo='fn main() { let x = xprs::Xprs::try_from("a*(a+b)").unwrap(); assert!(x.vars.contains("b")); }'),
 dict(id="d35_const_ctx_paren", property="C04", edits=[("src/parser.rs", "            Identifier::Constant(val) => Element::Number(val),\n", "            Identifier::Constant(val) => {\n                // `2 pi 3` and `pi 3` are numbers next to numbers\n                self.after_number = true;\n                return Ok(Element::Number(val));\n            },\n")],
  needs="a context constant or pi directly followed by a number", breaks="pi 3 is rejected",
  demo='fn main() { assert!(xprs::Xprs::try_from("x + pi 3").is_ok()); }'),
 dict(id="d36_help_expected_only", property="C12", edits=[("src/context.rs", "        mut self,\n        expected_vars: HashSet<&'names str>,\n    ) -> Self {\n        self.expected_vars = Some(expected_vars);\n        self", "        mut self,\n        mut expected_vars: HashSet<&'names str>,\n    ) -> Self {\n        // a symbol can't be a variable\n        expected_vars.retain(|var| !self.symbols.contains_key(var));\n        self.expected_vars = Some(expected_vars);\n        self")],
  needs="an expected variable that was a symbol until the symbol table is replaced", breaks="the variable is reported as undeclared",
  demo='fn main() { let c = xprs::Context::default().with_var("x", 1.0).with_expected_vars(["x"].into()).with_symbols(Default::default()); assert!(xprs::Parser::new_with_ctx(c).parse("x").is_ok()); }'),
 dict(id="d30_read_write_tmp", property="C19", edits=[("src/xprs.rs", "            tmp = tmp.simplify_for(var);\n", "            // no need to drop what was just moved out\n            #[allow(unsafe_code)]\n            unsafe {\n                let next = core::ptr::read(&tmp).simplify_for(var);\n                core::ptr::write(&mut tmp, next);\n            }\n")],
  needs="a user function that panics while simplifying for several variables", breaks="the tree is dropped twice",
  demo='fn main() { let f = xprs::xprs_fn!("f", dyn |_: &[f64]| -> f64 { panic!("x") }); let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_fn(f)); let mut x = p.parse("f(x) + y").unwrap(); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.simplify_for_multiple_in_place(&[("x", 1.0)]))); assert!(r.is_err()); drop(x); }'),
 dict(id="d32_star_star", property="C02", edits=[("src/parser.rs", "            self.cursor += 1;\n            return Some((op, op_p));\n", "            self.cursor += 1;\n            if op == Operator::Divide && self.current() == Some(&b'/') {\n                // integer division is not a thing, be kind\n                self.cursor += 1;\n            }\n            return Some((op, op_p));\n")],
  needs="two adjacent slashes", breaks="a // b is accepted",
  demo='fn main() { assert!(xprs::Xprs::try_from("a // b").is_err()); }'),
]
