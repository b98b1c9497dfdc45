EV = '''
fn ev(s: &str, vars: &[(&str, f64)]) -> f64 {
    let m: std::collections::HashMap<&str, f64> = vars.iter().copied().collect();
    xprs::Xprs::try_from(s).unwrap().eval(&m).unwrap()
}
'''
P, X, S, E, C, F, B = "src/parser.rs", "src/xprs.rs", "src/element/simplify.rs", "src/element/mod.rs", "src/context.rs", "src/token/function.rs", "src/utils/built_in_functions.rs"
BUGS = [
 dict(id="f01_depth_u8", property="C01", edits=[
  (P, "    after_number: bool,\n}", "    after_number: bool,\n    /// How deep the element being parsed is.\n    depth: u8,\n}"),
  (P, "            after_number: false,\n        }", "            after_number: false,\n            depth: 0,\n        }"),
  (P, "        let mut el = self.atom()?;\n", "        self.depth += 1;\n        let mut el = self.atom()?;\n"),
  (P, "            el = BinOp::new_element(op, el, rhs);\n        }\n", "            el = BinOp::new_element(op, el, rhs);\n        }\n        self.depth -= 1;\n")],
  needs="256 nested parentheses or more, with overflow checks", breaks="the depth counter overflows and parsing panics",
  demo='fn main() { let s = format!("{}x{}", "(".repeat(300), ")".repeat(300)); assert!(xprs::Xprs::try_from(s.as_str()).is_ok()); }'),
 dict(id="f02_double_star", property="C02", edits=[(P, "            self.cursor += 1;\n            return Some((op, op_p));", "            self.cursor += 1;\n            // ** is another way to write ^\n            if op == Operator::Times && self.current() == Some(&b'*') {\n                let power_p = precedence::get_for_op(Operator::Power);\n                self.cursor += 1;\n                return Some((Operator::Power, power_p));\n            }\n            return Some((op, op_p));")],
  needs="two adjacent multiplication signs", breaks="x ** y is accepted",
  demo='fn main() { assert!(xprs::Xprs::try_from("x ** y").is_err()); }'),
 dict(id="f03_underscores_splitn", property="C03", edits=[(P, "        let num = ident.replace('_', \"\").parse().map_err(", "        let num = ident.splitn(7, '_').collect::<String>().parse().map_err(")],
  needs="a literal with seven underscores or more", breaks="the literal is reported as malformed",
  demo=EV + 'fn main() { assert_eq!(ev("1_2_3_4_5_6_7_8", &[]), 12345678.0); }'),
 dict(id="f04_builtin_call_wins", property="C04", edits=[(P, "            .get(name)\n            .cloned()", "            .get(name)\n            .filter(|symbol| {\n                // a call is not meant for a constant\n                !matches!(*symbol, &crate::context::Symbol::Variable(_))\n                    || self.current() != Some(&b'(')\n                    || !matches!(Identifier::from_str(name), Identifier::Function(_))\n            })\n            .cloned()")],
  needs="a constant of the context with the name of a built-in function, followed by a parenthesis", breaks="the built-in function is called instead of the product",
  demo='fn main() { let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_var("ln", 2)); assert_eq!(p.parse("ln(3)").unwrap().eval_no_vars().unwrap(), 6.0); }'),
 dict(id="f05_power_sqrt", property="C05", edits=[(X, "                    Operator::Divide => left / right,\n                    Operator::Power => left.powf(right),\n                    Operator::Modulo => left % right,\n                    Operator::Factorial => unreachable!(),\n                }\n            },\n            Element::Function(ref func) => {\n                let args = func\n                    .args\n                    .iter()\n                    .map(|arg| self.eval_element(arg))", "                    Operator::Divide => left / right,\n                    #[allow(clippy::float_cmp)]\n                    Operator::Power if right == 0.5 => left.sqrt(),\n                    Operator::Power => left.powf(right),\n                    Operator::Modulo => left % right,\n                    Operator::Factorial => unreachable!(),\n                }\n            },\n            Element::Function(ref func) => {\n                let args = func\n                    .args\n                    .iter()\n                    .map(|arg| self.eval_element(arg))")],
  needs="the power 0.5 of minus infinity or of minus zero", breaks="the value is NaN, or has the other sign",
  demo=EV + 'fn main() { assert_eq!(ev("x ^ 0.5", &[("x", f64::NEG_INFINITY)]), f64::INFINITY); }'),
 dict(id="f06_find_vars_limit", property="C06", edits=[(E, "            Self::Function(ref func) => {\n                func.args.iter().for_each(|arg| arg.find_variables(vars));\n            },", "            Self::Function(ref func) => {\n                let (first, rest) = func.args.split_at(func.args.len().min(usize::from(i8::MAX as u8)));\n                first.iter().chain(rest.chunks(2).map(|pair| &pair[0])).for_each(|arg| arg.find_variables(vars));\n            },")],
  needs="a call with 129 arguments or more", breaks="variables of every second argument after the 127th are not reported",
  demo='fn main() { let v: Vec<String> = (0..150).map(|i| format!("v{i}")).collect(); let s = format!("max({})", v.join(",")); assert_eq!(xprs::Xprs::try_from(s.as_str()).unwrap().vars.len(), 150); }'),
 dict(id="f07_abs_nonneg", property="C07", edits=[(S, "        if args_values.len() == self.args.len() {\n            self.call(&args_values).into()", "        /// Whether an element is never negative.\n        fn non_negative(el: &Element) -> bool {\n            match *el {\n                Element::Number(num) => num >= 0.0,\n                Element::BinOp(ref binop) => match binop.op {\n                    Operator::Plus | Operator::Times | Operator::Divide => {\n                        non_negative(&binop.lhs) && non_negative(&binop.rhs)\n                    },\n                    Operator::Modulo => non_negative(&binop.rhs),\n                    Operator::Power => non_negative(&binop.lhs),\n                    Operator::Minus | Operator::Factorial => false,\n                },\n                Element::UnOp(ref unop) => unop.op == Operator::Factorial,\n                Element::Function(_) | Element::Variable(_) => false,\n            }\n        }\n        if self.desc == crate::utils::built_in_functions::ABS\n            && self.args.len() == 1\n            && non_negative(&self.args[0])\n        {\n            return self.args.remove(0);\n        }\n\n        if args_values.len() == self.args.len() {\n            self.call(&args_values).into()")],
  needs="the absolute value of a remainder by a positive number, at a negative dividend", breaks="the absolute value is dropped", features="pemdas compile-time-optimizations",
  demo=EV + 'fn main() { assert_eq!(ev("abs(x % 3)", &[("x", -4.0)]), 1.0); }'),
 dict(id="f09_missing_truncated", property="C09", edits=[(X, "        match count {\n            0 => None,", "        // nobody reads more\n        missing_vars_str.truncate(4000);\n        match count {\n            0 => None,")],
  needs="missing variables whose names take more than 4000 bytes", breaks="the error does not list all of them",
  demo='fn main() { let v: Vec<String> = (0..900).map(|i| format!("v{i}")).collect(); let s = v.join("+"); let e = xprs::Xprs::try_from(s.as_str()).unwrap().bind("z").err().unwrap().to_string(); assert!(v.iter().all(|n| e.contains(n.as_str()))); }'),
 dict(id="f10_fact_reverse", property="C10", edits=[(S, "                Element::Number(num) => Element::Number(factorial(num)),", "                Element::Number(num) if num > 22.0 && num < 25.0 && num.fract() == 0.0 => {\n                    Element::Number((1..=num as u64).rev().map(|k| k as f64).product())\n                },\n                Element::Number(num) => Element::Number(factorial(num)),")],
  needs="the factorial of the constant 23 or 24 where it is folded", breaks="it is rounded in another order", features="pemdas compile-time-optimizations",
  demo=EV + 'fn main() { for n in [23, 24] { assert_eq!(ev(&format!("{n}!"), &[]).to_bits(), ev("x!", &[("x", f64::from(n))]).to_bits()); } }'),
 dict(id="f11_sum_chunks", property="C11", edits=[(B, "xprs_fn!(\"sum\", |args| args.iter().sum())", "xprs_fn!(\"sum\", |args| args.chunks(64).map(|chunk| chunk.iter().sum::<f64>()).sum())")],
  needs="a sum of 65 arguments or more", breaks="it is rounded in another order",
  demo=EV + 'fn main() { let v: Vec<String> = (0..200).map(|i| format!("{}.1", (i * 7919) % 1013)).collect(); let w: f64 = v.iter().map(|s| s.parse::<f64>().unwrap()).sum(); assert_eq!(ev(&format!("sum({})", v.join(",")), &[]), w); }'),
 dict(id="f12_no_expected", property="C12", edits=[(C, "        expected_vars: HashSet<&'names str>,\n    ) -> Self {\n        self.expected_vars = Some(expected_vars);", "        expected_vars: HashSet<&'names str>,\n    ) -> Self {\n        self.expected_vars =\n            (!expected_vars.is_empty()).then_some(expected_vars);")],
  needs="an empty set of expected variables", breaks="every variable is accepted",
  demo='fn main() { let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_expected_vars([].into())); assert!(p.parse("x").is_err()); }'),
 dict(id="f14_tiny_digits", property="C14", edits=[(E, "            Self::Number(num) => write!(fmt, \"{num}\"),", "            // no endless rows of zeros\n            Self::Number(num) if num.abs() < 1e-6 && num != 0.0 => write!(fmt, \"{num:.24}\"),\n            Self::Number(num) => write!(fmt, \"{num}\"),")],
  needs="a constant below 1e-6 with many digits", breaks="its last digits are not displayed",
  demo='fn main() { let x = xprs::Xprs::try_from("x * 0.00000001234567890123456").unwrap(); let t = x.to_string(); let y = xprs::Xprs::try_from(t.as_str()).unwrap(); let m = [("x", 1.0)].into(); assert_eq!(x.eval(&m).unwrap(), y.eval(&m).unwrap()); }'),
 dict(id="f15_mentions", property="C15", edits=[(S, "        self.args = self\n            .args\n            .into_iter()\n            .map(|arg| arg.simplify_for(var))\n            .collect();\n        self.simplify()", "        /// Whether there is something to replace.\n        fn mentions(el: &Element, name: &str) -> bool {\n            match *el {\n                Element::Number(_) => false,\n                Element::Variable(var) => var == name,\n                Element::UnOp(ref unop) => mentions(&unop.operand, name),\n                Element::BinOp(ref binop) => {\n                    mentions(&binop.lhs, name) || mentions(&binop.rhs, name)\n                },\n                Element::Function(ref func) => func\n                    .args\n                    .iter()\n                    .zip(0_u8..16)\n                    .any(|(arg, _)| mentions(arg, name)),\n            }\n        }\n        if self.args.iter().any(|arg| mentions(arg, var.0)) {\n            self.args = self\n                .args\n                .into_iter()\n                .map(|arg| arg.simplify_for(var))\n                .collect();\n        }\n        self.simplify()")],
  needs="a call within a call, of more than sixteen arguments, which names the variable after the sixteenth only", breaks="the variable stays in the expression",
  demo='fn main() { let s = format!("sin(max({}y))", "x,".repeat(16)); let x = xprs::Xprs::try_from(s.as_str()).unwrap().simplify_for(("y", 2.0)); assert!(!x.vars.contains("y")); }'),
 dict(id="f17_sum_flat", property="C17", edits=[("src/element/binop.rs", "                        || (self.lhs == other.rhs && self.rhs == other.lhs)\n", "                        || (self.lhs == other.rhs && self.rhs == other.lhs)\n                        || match (&self.lhs, &other.rhs) {\n                            // (a + b) + c and a + (b + c)\n                            (&Element::BinOp(ref left), &Element::BinOp(ref right)) => {\n                                left.op == self.op\n                                    && right.op == self.op\n                                    && left.lhs == other.lhs\n                                    && left.rhs == right.lhs\n                                    && self.rhs == right.rhs\n                            },\n                            _ => false,\n                        }\n")],
  needs="a sum or product written with the parentheses the other way", breaks="(a + b) + c == a + (b + c), though they are rounded differently",
  demo=EV + 'fn main() { let (a, b) = (xprs::Xprs::try_from("(x + y) + z").unwrap(), xprs::Xprs::try_from("x + (y + z)").unwrap()); let m = [("x", 0.1), ("y", 0.2), ("z", 0.3)].into(); assert!(a != b || a.eval(&m) == b.eval(&m)); }'),
 dict(id="f18_help_once", property="C18", edits=[(P, "            ErrorKind::MissingArgument => {\n                \"Either remove comma or add argument.\".to_owned()\n            },", "            ErrorKind::MissingArgument => {\n                use core::sync::atomic::{AtomicBool, Ordering};\n                /// Who reads it once knows it.\n                static SHOWN: AtomicBool = AtomicBool::new(false);\n                if SHOWN.swap(true, Ordering::Relaxed) {\n                    return None;\n                }\n                \"Either remove comma or add argument.\".to_owned()\n            },")],
  needs="two errors of a missing argument in one process", breaks="the second one has no help",
  demo='use miette::Diagnostic; fn main() { let h = || xprs::Xprs::try_from("max(,1)").unwrap_err().help().map(|h| h.to_string()); assert_eq!(h(), h()); }'),
 dict(id="f19_pow_cache", property="C18", edits=[(X, "                    Operator::Divide => left / right,\n                    Operator::Power => left.powf(right),\n                    Operator::Modulo => left % right,\n                    Operator::Factorial => unreachable!(),\n                }\n            },\n            Element::Function(ref func) => {\n                let args = func\n                    .args\n                    .iter()\n                    .map(|arg| self.eval_element(arg))", "                    Operator::Divide => left / right,\n                    Operator::Power => {\n                        thread_local! {\n                            /// The last power, which is often needed again.\n                            static LAST: core::cell::Cell<(f64, f64, f64)> =\n                                const { core::cell::Cell::new((f64::NAN, 0.0, 0.0)) };\n                        }\n                        let (base, exp, power) = LAST.get();\n                        #[allow(clippy::float_cmp)]\n                        if base == left && exp == right {\n                            power\n                        } else {\n                            let power = left.powf(right);\n                            LAST.set((left, right, power));\n                            power\n                        }\n                    },\n                    Operator::Modulo => left % right,\n                    Operator::Factorial => unreachable!(),\n                }\n            },\n            Element::Function(ref func) => {\n                let args = func\n                    .args\n                    .iter()\n                    .map(|arg| self.eval_element(arg))")],
  needs="a power of zero right after the same power of minus zero", breaks="the second one has the sign of the first",
  demo='fn main() { let x = xprs::Xprs::try_from("x ^ y").unwrap(); let _ = x.eval(&[("x", 0.0), ("y", -1.0)].into()); assert_eq!(x.eval(&[("x", -0.0), ("y", -1.0)].into()).unwrap(), f64::NEG_INFINITY); }'),
 dict(id="f20_args_buffer", property="C19", edits=[(X, "                let args = func\n                    .args\n                    .iter()\n                    .map(|arg| self.eval_element_unchecked(arg))\n                    .collect::<Vec<_>>();\n                func.call(&args)", "                /// Saves the allocation of the arguments.\n                static BUFFER: std::sync::Mutex<Vec<f64>> = std::sync::Mutex::new(Vec::new());\n                let args = func\n                    .args\n                    .iter()\n                    .map(|arg| self.eval_element_unchecked(arg))\n                    .collect::<Vec<_>>();\n                match BUFFER.try_lock() {\n                    Ok(mut buffer) => {\n                        buffer.clear();\n                        buffer.extend(args);\n                        func.call(&buffer)\n                    },\n                    Err(std::sync::TryLockError::WouldBlock) => func.call(&args),\n                    Err(std::sync::TryLockError::Poisoned(err)) => {\n                        // what was left there is not to be trusted\n                        let buffer = err.into_inner();\n                        func.call(&buffer)\n                    },\n                }")],
  needs="an unchecked evaluation after one in which a user function panicked", breaks="functions are called with the arguments of the call that panicked",
  demo='fn main() { std::panic::set_hook(Box::new(|_| {})); let f = xprs::xprs_fn!("f", dyn |x: f64| { if x == 0.0 { panic!() } x + 1.0 }, 1); let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_fn(f)); let x = p.parse("f(x)").unwrap(); let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.eval_unchecked(&[("x", 0.0)].into()))); assert_eq!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.eval_unchecked(&[("x", 1.0)].into()))).ok(), Some(2.0)); }'),
 dict(id="f21_vertical_tab", property="C02", edits=[(P, "        self.skip_while(u8::is_ascii_whitespace);", "        self.skip_while(|ch| ch.is_ascii_whitespace() || ch.is_ascii_control());")],
  needs="a control character that is not white space between two tokens", breaks="it is skipped",
  demo='fn main() { assert!(xprs::Xprs::try_from("1 +\\u{b} 2").is_err()); }'),
 dict(id="f22_fn_name_case", property="C17", edits=[(F, "#[derive(Debug, PartialEq, Clone)]\n#[non_exhaustive]\npub struct Function {", "#[derive(Debug, Clone)]\n#[non_exhaustive]\npub struct Function {"), (F, "impl PartialOrd for Function {", "impl PartialEq for Function {\n    #[inline]\n    fn eq(&self, other: &Self) -> bool {\n        self.nb_args == other.nb_args\n            && (self.func == other.func || self.name == other.name)\n    }\n}\n\nimpl PartialOrd for Function {")],
  needs="two functions of one name, or one function under two names, from different contexts", breaks="calls of different functions compare equal",
  demo='fn main() { let p = |f: fn(&[f64]) -> f64| xprs::Parser::new_with_ctx(xprs::Context::default().with_fn(xprs::Function::new_static("f", f, Some(1)))); assert!(p(|a| a[0] + 1.0).parse("f(x)").unwrap() != p(|a| a[0] * 2.0).parse("f(x)").unwrap()); }'),
 dict(id="f23_err_two_labels", property="C13", edits=[(P, "                ErrorKind::UnexpectedToken(_) => {\n                    ParseError::new_missing_argument(self)\n                },\n                ErrorKind::UnexpectedEndOfExpression\n                | ErrorKind::ExpectedToken(_)", "                ErrorKind::UnexpectedToken(_) => {\n                    ParseError::new_missing_argument(self)\n                },\n                ErrorKind::ExpectedToken(')') => {\n                    ParseError::new_unexpected_token(self, b',')\n                },\n                ErrorKind::UnexpectedEndOfExpression\n                | ErrorKind::ExpectedToken(_)")],
  needs="an unclosed parenthesis within an argument, followed by something else than a comma", breaks="an unexpected comma is reported where there is none",
  demo='fn main() { let e = xprs::Xprs::try_from("max((1 ), (2 $ 3").unwrap_err(); let t = e.to_string(); assert!(!t.contains("`,`"), "{t}"); }'),
]
