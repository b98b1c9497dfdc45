EV = '''
fn ev(s: &str, vars: &[(&str, f64)]) -> f64 {
    let m: std::collections::HashMap<&str, f64> = vars.iter().copied().collect();
    xprs::Xprs::try_from(s).unwrap().eval(&m).unwrap()
}
'''
BUGS = [
 dict(id="b01_upper_exponent", property="C03", edits=[("src/parser.rs", "matches!(self.current(), Some(&b'e' | &b'E'));", "matches!(self.current(), Some(&b'e'));")],
  needs="a number literal written with an uppercase exponent", breaks="2E3 is read as 2 times a variable E3",
  demo='fn main() { let x = xprs::Xprs::try_from("2E3 + 1").unwrap(); assert!(x.vars.is_empty(), "{:?}", x.vars); assert_eq!(x.eval_no_vars().unwrap(), 2001.0); }'),
 dict(id="b02_exponent_sign_digit", property="C03", edits=[("src/parser.rs", "&& matches!(self.next_at(2), Some(&(b'0'..=b'9')));", "&& self.next_at(2).is_some();")],
  needs="a number followed by e, a sign and something that is not a digit: 2e+x", breaks="2e+x is read as a malformed literal instead of 2*e+x",
  demo='fn main() { let x = xprs::Xprs::try_from("2e-x").unwrap(); let v = x.eval(&[("x", 1.0)].into()).unwrap(); assert_eq!(v, 2.0 * std::f64::consts::E - 1.0); }'),
 dict(id="b03_arity_mod_256", property="C04", edits=[("src/parser.rs", "match args.len().cmp(&nb_args.into()) {", "#[allow(clippy::as_conversions, clippy::cast_possible_truncation)]\n                    match (args.len() as u8).cmp(&nb_args) {")],
  needs="a call with 256 more arguments than declared", breaks="a fixed-arity function is called with 257 arguments",
  demo='fn main() { let s = format!("sin({})", vec!["x"; 257].join(",")); assert!(xprs::Xprs::try_from(s.as_str()).is_err()); assert!(xprs::Xprs::try_from("sin(x)").is_ok()); }'),
 dict(id="b04_bind7_swap", property="C09", edits=[("src/xprs.rs", "Ok(move |val1, val2, val3, val4, val5, val6, val7| self.eval_unchecked(&[(var1, val1), (var2, val2), (var3, val3), (var4, val4), (var5, val5), (var6, val6), (var7, val7)].into()))", "Ok(move |val1, val2, val3, val4, val5, val6, val7| self.eval_unchecked(&[(var1, val1), (var2, val2), (var3, val3), (var5, val4), (var4, val5), (var6, val6), (var7, val7)].into()))")],
  needs="seven bound variables with different values in the fourth and fifth place", breaks="bind7 swaps its fourth and fifth arguments",
  demo='fn main() { let f = xprs::Xprs::try_from("a+2*b+4*c+8*d+16*g+32*h+64*i").unwrap().bind7("a","b","c","d","g","h","i").unwrap(); assert_eq!(f(0.,0.,0.,1.,0.,0.,0.), 8.0); }'),
 dict(id="b05_macro_swap8", property="C16", edits=[("src/token/function.rs", "move |args| $function(args[0], args[1], args[2], args[3], args[4], args[5], args[6], args[7])\n", "move |args| $function(args[0], args[1], args[2], args[3], args[4], args[6], args[5], args[7])\n")],
  needs="a function of eight arguments that is not symmetric in its sixth and seventh", breaks="xprs_fn! passes two arguments in the wrong order for arity 8",
  demo='fn g(_a:f64,_b:f64,_c:f64,_d:f64,_e:f64,f:f64,g:f64,_h:f64)->f64{f-g} fn main() { let h = xprs::xprs_fn!("g", g, 8); let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_fn(h)); assert_eq!(p.parse("g(0,0,0,0,0,7,5,0)").unwrap().eval_no_vars().unwrap(), 2.0); }'),
 dict(id="b06_with_symbols_extends", property="C12", edits=[("src/context.rs", "self.symbols = symbols;\n", "self.symbols.extend(symbols);\n")],
  needs="a context with a symbol defined before its table is replaced", breaks="with_symbols keeps earlier definitions",
  demo='fn main() { let c = xprs::Context::default().with_var("k", 3.0).with_symbols([("z", 1.0.into())].into()); let p = xprs::Parser::new_with_ctx(c); let x = p.parse("k+z").unwrap(); assert!(x.vars.contains("k")); }'),
 dict(id="b07_modulo_euclid", property="C05", edits=[("src/xprs.rs", "                let left = self.eval_element_unchecked(&binop.lhs);\n                let right = self.eval_element_unchecked(&binop.rhs);\n                #[allow(clippy::unreachable)]\n                match binop.op {\n                    Operator::Plus => left + right,\n                    Operator::Minus => left - right,\n                    Operator::Times => left * right,\n                    Operator::Divide => left / right,\n                    Operator::Power => left.powf(right),\n                    Operator::Modulo => left % right,", "                let left = self.eval_element_unchecked(&binop.lhs);\n                let right = self.eval_element_unchecked(&binop.rhs);\n                #[allow(clippy::unreachable)]\n                match binop.op {\n                    Operator::Plus => left + right,\n                    Operator::Minus => left - right,\n                    Operator::Times => left * right,\n                    Operator::Divide => left / right,\n                    Operator::Power => left.powf(right),\n                    Operator::Modulo => left.rem_euclid(right),")],
  needs="the unchecked evaluation of a modulo with a negative left operand", breaks="unchecked evaluation differs from the checked one",
  demo='fn main() { let x = xprs::Xprs::try_from("x % 3").unwrap(); let m = [("x", -1.0)].into(); assert_eq!(x.eval(&m).unwrap(), x.eval_unchecked(&m)); }'),
 dict(id="b08_factorial_digit", property="C10", edits=[("src/utils/factorial.rs", "4.052_691_950_487_722e76,", "4.052_691_950_487_752e76,")],
  needs="the factorial of exactly 57", breaks="57! has a wrong 14th digit", demo=EV + 'fn main() { assert_eq!(ev("57!", &[]), ev("56!", &[]) * 57.0); }'),
 dict(id="b09_simplify_for_prefix", property="C15", edits=[("src/element/simplify.rs", "Self::Variable(name) if name == var.0 => Self::Number(var.1),", "Self::Variable(name) if name.starts_with(var.0) => Self::Number(var.1),")],
  needs="a variable whose name starts with the simplified variable's name", breaks="simplifying for x also replaces x1",
  demo='fn main() { let x = xprs::Xprs::try_from("x + 10*x1").unwrap().simplify_for(("x", 1.0)); assert!(x.vars.contains("x1")); }'),
 dict(id="b10_find_variables_args", property="C06", edits=[("src/element/mod.rs", "func.args.iter().for_each(|arg| arg.find_variables(vars));", "func.args.iter().take(4).for_each(|arg| arg.find_variables(vars));")],
  needs="a variable that only occurs in the fifth argument of a call", breaks="the reported variables miss it",
  demo='fn main() { let x = xprs::Xprs::try_from("max(a,b,c,d,z)").unwrap(); assert!(x.vars.contains("z")); }'),
 dict(id="b11_help_underflow", property="C01", edits=[("src/parser.rs", "let excess = got - usize::from(expected);", "let excess = usize::from(expected) - got;")],
  needs="the help of a too-many-arguments error is rendered", breaks="rendering the help panics (subtraction overflow)",
  demo='use miette::Diagnostic; fn main() { let e = xprs::Xprs::try_from("sin(1,2)").unwrap_err(); assert_eq!(e.help().unwrap().to_string(), "Try removing 1 argument."); }'),
 dict(id="b12_display_small", property="C14", edits=[("src/element/mod.rs", 'Self::Number(num) => write!(fmt, "{num}"),', 'Self::Number(num) if num.fract() != 0.0 && num.abs() < 1e-6 => write!(fmt, "{num:.20}"),\n            Self::Number(num) => write!(fmt, "{num}"),')],
  needs="a constant smaller than a millionth with more than a few significant digits", breaks="the displayed expression evaluates to another number",
  demo='fn main() { let x = xprs::Xprs::try_from("x * 1.2345678901234e-12").unwrap(); let t = x.to_string(); let y = xprs::Xprs::try_from(t.as_str()).unwrap(); let m = [("x", 1.0)].into(); assert_eq!(x.eval(&m).unwrap(), y.eval(&m).unwrap()); }'),
 dict(id="b13_eq_minus_commutes", property="C17", edits=[("src/element/binop.rs", "                | Operator::Minus\n                | Operator::Modulo\n                | Operator::Power => {\n                    self.lhs == other.lhs", "                | Operator::Modulo\n                | Operator::Power => {\n                    self.lhs == other.lhs"), ("src/element/binop.rs", "Operator::Plus | Operator::Times => {", "Operator::Plus | Operator::Minus | Operator::Times => {")],
  needs="two subtractions with swapped operands are compared", breaks="x-y equals y-x, so (x-y)/(y-x) folds to 1",
  demo=EV + 'fn main() { assert!(xprs::Xprs::try_from("x-y").unwrap() != xprs::Xprs::try_from("y-x").unwrap()); assert_eq!(ev("(x-y)/(y-x)", &[("x", 1.0), ("y", 2.0)]), -1.0); }'),
 dict(id="b14_arg_error_span", property="C13", edits=[("src/parser.rs", "        let identifier_start = self.cursor;\n        let name = self.take_while(\n            |&ch| matches!(ch, b'_' | b'\\'' | b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9'),\n        );\n", "        let name = self.take_while(\n            |&ch| matches!(ch, b'_' | b'\\'' | b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9'),\n        );\n        let identifier_start = self.cursor - name.len().min(4);\n")],
  needs="an argument-count error for a function with a name longer than four letters", breaks="the error's span does not start at the function's name",
  demo='use miette::Diagnostic; fn main() { let e = xprs::Xprs::try_from("1 + hypot(1)").unwrap_err(); assert_eq!(e.labels().unwrap().next().unwrap().offset(), 4); }'),
 dict(id="b15_ident_quote", property="C04", edits=[("src/parser.rs", "|&ch| matches!(ch, b'_' | b'\\'' | b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9'),", "|&ch| matches!(ch, b'_' | b'\\'' | b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'8'),")],
  needs="an identifier containing the digit 9", breaks="x9 is read as x times 9",
  demo='fn main() { let x = xprs::Xprs::try_from("x9 + 1").unwrap(); assert!(x.vars.contains("x9")); }'),
 dict(id="b16_alias_invert", property="C11", edits=[("src/token/identifier.rs", '"invert" | "recip" => built_in_functions::RECIP.into(),', '"invert" => built_in_functions::RECIP.into(),')],
  needs="the built-in recip under its main name", breaks="recip(x) is a product with a variable recip",
  demo='fn main() { let x = xprs::Xprs::try_from("recip(4)").unwrap(); assert!(x.vars.is_empty()); assert_eq!(x.eval_no_vars().unwrap(), 0.25); }'),
 dict(id="b17_fn_cache", property="C18", edits=[("src/element/simplify.rs", "            self.call(&args_values).into()\n", "            use std::{collections::HashMap, sync::Mutex};\n            static MEMO: Mutex<Option<HashMap<(&'static str, Vec<u64>), f64>>> = Mutex::new(None);\n            let key = (self.desc.name, args_values.iter().map(|v| v.to_bits()).collect::<Vec<_>>());\n            let mut memo = MEMO.lock().unwrap();\n            let map = memo.get_or_insert_with(HashMap::new);\n            let value = *map.entry(key).or_insert_with(|| self.call(&args_values));\n            value.into()\n")],
  needs="two contexts that define different functions under one name, used one after the other on equal constant arguments", breaks="parsing depends on what was parsed before",
  demo='fn a(x:f64)->f64{x+1.} fn b(x:f64)->f64{x+2.} fn main() { let p = |f| xprs::Parser::new_with_ctx(xprs::Context::default().with_fn(f)); assert_eq!(p(xprs::xprs_fn!("f", a, 1)).parse("f(1)").unwrap().eval_no_vars().unwrap(), 2.0); assert_eq!(p(xprs::xprs_fn!("f", b, 1)).parse("f(1)").unwrap().eval_no_vars().unwrap(), 3.0); }'),
 dict(id="b18_div_same_args", property="C07", edits=[("src/element/simplify.rs", "            BinOp {\n                op: Divide,\n                lhs,\n                rhs,\n            } if lhs == rhs => Number(1.0),", "            BinOp {\n                op: Divide,\n                lhs,\n                rhs,\n            } if lhs == rhs || lhs == (UnOp { op: Minus, operand: rhs.clone() }).into() => Number(1.0),")],
  needs="a quotient of the negation of an expression and the expression itself", breaks="-x/x folds to 1 instead of -1",
  demo=EV + 'fn main() { assert_eq!(ev("(-x)/x", &[("x", 2.0)]), -1.0); }'),
 dict(id="b19_uminus_fold_zero", property="C08", edits=[("src/element/simplify.rs", "                Element::Number(num) => Element::Number(-num),", "                Element::Number(num) => Element::Number(0.0 - num),")],
  needs="a constant expression whose value depends on the sign of a zero: 1/-0", breaks="folding loses the sign of zero, so 1/-0 is infinity",
  demo=EV + 'fn main() { assert_eq!(ev("1/(-0)", &[]), f64::NEG_INFINITY); }'),
 dict(id="b20_prec_modulo", property="C02", edits=[("src/utils/precedence.rs", "        Operator::Times | Operator::Divide | Operator::Modulo => 2,\n", "        Operator::Times | Operator::Divide => 2,\n        // binds like the unary operators\n        Operator::Modulo => UNOP_PRECEDENCE,\n")],
  needs="a product followed by a modulo", breaks="a*b%c is parsed as a*(b%c)",
  demo=EV + 'fn main() { assert_eq!(ev("x*y%z", &[("x", 3.0), ("y", 4.0), ("z", 5.0)]), 2.0); }'),
 dict(id="b21_ws_vertical", property="C02", edits=[("src/parser.rs", "        self.skip_while(u8::is_ascii_whitespace);", "        self.skip_while(|&ch| matches!(ch, b' ' | b'\\t' | b'\\n'));")],
  needs="a carriage return or form feed between tokens", breaks="ASCII whitespace is rejected",
  demo=EV + 'fn main() { assert_eq!(ev("1 +\\r\\n2", &[]), 3.0); }'),
]
