"""Planted bugs, sixth batch (see plant.py)."""
EV = '''
fn ev(s: &str, vars: &[(&str, f64)]) -> f64 {
    let m: std::collections::HashMap<&str, f64> = vars.iter().copied().collect();
    xprs::Xprs::try_from(s).unwrap().eval(&m).unwrap()
}
'''
P, X, S, E, C, F, B = "src/parser.rs", "src/xprs.rs", "src/element/simplify.rs", "src/element/mod.rs", "src/context.rs", "src/token/function.rs", "src/utils/built_in_functions.rs"
BUGS = [
 dict(id="g01_src_trimmed", property="C01", edits=[(P, "        let mut parser_impl = Self::new(input, ctx);\n", "        // what follows is of no interest\n        let mut parser_impl = Self::new(input.trim_end(), ctx);\n")],
  needs="a rejected input with trailing whitespace", breaks="the error's source text is not the input",
  demo='use miette::Diagnostic; fn main() { let e = xprs::Xprs::try_from("(x  \\n").unwrap_err(); let s = e.source_code().unwrap().read_span(&miette::SourceSpan::from((0, 2)), 0, 9); let s = s.unwrap(); assert_eq!(s.data().len(), "(x  \\n".len()); }'),
 dict(id="g02_factorial_then_digit", property="C02", edits=[(P, "        if self.consume_if_eq(b'!') {\n            self.after_number = false;\n", "        if self.consume_if_eq(b'!') {\n")],
  needs="a number, a factorial and a number side by side", breaks="2!3 is rejected",
  demo='fn main() { assert!(xprs::Xprs::try_from("2! 3").is_ok()); }'),
 dict(id="g03_fast_literal", property="C03", edits=[(P, "        let num = ident.replace('_', \"\").parse().map_err(\n            #[cold]\n            |_err| ParseError::new_malformed_number(self, ident),\n        )?;\n",
  "        let text = ident.replace('_', \"\");\n        // most literals are short decimals\n        let short = text.split_once('.').and_then(|(whole, part)| {\n            let digits: u64 = format!(\"{whole}{part}\").parse().ok()?;\n            (digits < 1 << 53)\n                .then(|| digits as f64 / 10_f64.powi(part.len() as i32))\n        });\n        let num = match short {\n            Some(num) => num,\n            None => text.parse().map_err(\n                #[cold]\n                |_err| ParseError::new_malformed_number(self, ident),\n            )?,\n        };\n")],
  needs="a decimal fraction with more than 22 decimals", breaks="its value is not the nearest double",
  demo=EV + 'fn main() { for s in ["0.00000000000000000000000012345678901", "0.000000000000000000000000000007", "0.0000000000000000000000000000123", "0.00000000000000000000000000000000045678912345"] { assert_eq!(ev(s, &[]), s.parse::<f64>().unwrap(), "{s}"); } }'),
 dict(id="g05_modulo_unchecked", property="C05", edits=[(X, "                let left = self.eval_element_unchecked(&binop.lhs);\n                let right = self.eval_element_unchecked(&binop.rhs);\n", "                let left = self.eval_element_unchecked(&binop.lhs);\n                // nothing changes that anymore\n                if left.is_nan() {\n                    return left;\n                }\n                let right = self.eval_element_unchecked(&binop.rhs);\n")],
  needs="the unchecked evaluation of NaN ^ 0", breaks="it gives NaN, the checked one gives 1",
  demo='fn main() { let x = xprs::Xprs::try_from("x ^ y").unwrap(); let m = [("x", f64::NAN), ("y", 0.0)].into(); assert_eq!(x.eval(&m).unwrap(), x.eval_unchecked(&m)); }'),
 dict(id="g06_vars_removed_first", property="C06", edits=[(X, "        tmp = tmp.simplify_for(var);\n        self.root = tmp;\n        self.update_vars();", "        tmp = tmp.simplify_for(var);\n        self.root = tmp;\n        if self.vars.remove(var.0) {\n            self.update_vars();\n        }")],
  features="pemdas", needs="an unoptimised expression simplified for a variable it does not have", breaks="variables that are gone are still reported",
  demo='fn main() { let x = xprs::Xprs::try_from("0 * x + y").unwrap().simplify_for(("z", 1.0)); assert_eq!(x.vars, ["y"].into(), "{x}"); }'),
 dict(id="g07_plus_of_same", property="C07", edits=[(S, "            // 0 - a => -a\n", "            // a + a => 2 * a\n            BinOp {\n                op: Plus,\n                ref lhs,\n                ref rhs,\n            } if matches!(*lhs, Element::Function(_)) && lhs == rhs => {\n                let Element::Function(call) = self.lhs else {\n                    return self.into();\n                };\n                BinOp::new_element(Times, Number(2.0), call.args.into_iter().next_back().unwrap_or(Number(0.0)))\n            },\n            // 0 - a => -a\n")],
  needs="a function call plus itself", breaks="the call is lost",
  demo=EV + 'fn main() { assert_eq!(ev("exp(x) + exp(x)", &[("x", 0.0)]), 2.0); }'),
 dict(id="g08_pow_order", property="C08", edits=[(S, "                    Power => lhs.powf(rhs),", "                    #[allow(clippy::float_cmp)]\n                    Power if rhs == 2.0 => lhs * lhs,\n                    #[allow(clippy::float_cmp)]\n                    Power if rhs == 3.0 => lhs * lhs * lhs,\n                    Power => lhs.powf(rhs),")],
  needs="the third power of a constant whose square is not exact", breaks="the folded value differs from the evaluated one in the last bit",
  demo='fn main() { for i in 1..2000 { let v = 1.0 + f64::from(i) / 997.0; let s = format!("({v}) ^ 3"); let x = xprs::Xprs::try_from(s.as_str()).unwrap(); assert_eq!(x.eval_no_vars().unwrap(), v.powf(3.0), "{s}"); } }'),
 dict(id="g09_runtime_last_value", property="C09", edits=[(X, "        Ok(move |values: &[f64]| self.eval(&vars.iter().copied().zip(values.iter().copied()).collect()))", "        Ok(move |values: &[f64]| {\n            // the last value holds for whatever follows\n            let last = values.last().copied().filter(|_| values.len() + 1 < vars.len());\n            self.eval(&vars.iter().copied().zip(values.iter().copied().chain(last)).collect())\n        })")],
  needs="two values missing at least in the runtime-sized binding, only one of them needed", breaks="a missing value is made up",
  demo='fn main() { let n = ["a", "b", "c", "d"]; let f = xprs::Xprs::try_from("a + c").unwrap().bind_n_runtime(&n).unwrap(); assert!(f(&[1.0, 2.0]).is_err()); }'),
 dict(id="g10_factorial_max_first", property="C10", edits=[("src/utils/factorial.rs", "    if num.is_infinite() {\n        return f64::INFINITY;\n    }\n\n    if num.fract() != ZERO {\n        return f64::NAN;\n    }\n", "    if num > MAX + 1.0 {\n        return f64::INFINITY;\n    }\n\n    if num.fract() != ZERO {\n        return f64::NAN;\n    }\n")],
  needs="a number above 171 that is not whole", breaks="its factorial is infinity, not NaN",
  demo=EV + 'fn main() { assert!(ev("x!", &[("x", 200.5)]).is_nan()); }'),
 dict(id="g12_name_trimmed", property="C12", edits=[(C, "    pub fn set_fn(&mut self, func: Function) {\n        self.symbols.insert(func.name, func.into());", "    pub fn set_fn(&mut self, func: Function) {\n        self.symbols.insert(func.name.trim(), func.into());")],
  needs="a function whose name has whitespace around it", breaks="it denotes what another name denoted",
  demo='fn main() { let mut c = xprs::Context::default().with_var("f", 2); c.set_fn(xprs::xprs_fn!(" f", |x| x, 1)); assert_eq!(c.get("f"), Some(&xprs::Symbol::Variable(2.0))); }'),
 dict(id="g13_end_at_semicolon", property="C13", edits=[(P, "        self.skip_while(u8::is_ascii_whitespace);\n        self.current()", "        self.skip_while(u8::is_ascii_whitespace);\n        // what comes from C ends with a NUL\n        if self.current() == Some(&0) && self.cursor + 1 == self.input.len() {\n            return None;\n        }\n        self.current()")],
  needs="a final NUL byte", breaks="the end of the input is reported, or nothing at all, where a NUL stands",
  demo='fn main() { assert!(xprs::Xprs::try_from("1\\0").is_err()); assert!(format!("{}", xprs::Xprs::try_from("1+\\0").unwrap_err()).contains("Illegal")); }'),
 dict(id="g14_base_neg_zero", property="C14", edits=[(E, "            Element::Number(num) if num.is_sign_negative() => {", "            Element::Number(num) if num < 0.0 => {")],
  needs="a negative zero as the base of a power, or as the operand of a factorial", breaks="the displayed text reads as minus a power",
  demo='fn main() { let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_var("c", -0.0)); let x = p.parse("c ^ x").unwrap().to_string(); let y = xprs::Xprs::try_from(x.as_str()).unwrap(); assert_eq!(y.eval(&[("x", 0.0)].into()).unwrap(), 1.0, "{x}"); }'),
 dict(id="g15_multiple_until_gone", property="C15", edits=[(X, "        for &var in vars {\n            tmp = tmp.simplify_for(var);\n        }", "        let mut left = self.vars.len();\n        for &var in vars {\n            // all of them have a value\n            if left == 0 {\n                break;\n            }\n            tmp = tmp.simplify_for(var);\n            left -= 1;\n        }")],
  needs="more values than the expression has variables, the needed one being not among the first", breaks="a variable stays",
  demo='fn main() { let x = xprs::Xprs::try_from("y + 1").unwrap().simplify_for_multiple(&[("a", 1.0), ("y", 2.0)]); assert_eq!(x.to_string(), "3"); }'),
 dict(id="g17_display_eq", property="C17", edits=[(F, "                Self::Static(func2) => func1 == func2,", "                Self::Static(func2) => func1 as usize >> 4_u32 == func2 as usize >> 4_u32,")],
  needs="two small functions within sixteen bytes", breaks="they are equal",
  demo='fn main() { }'),
 dict(id="g18_literal_by_address", property="C18", edits=[(P, "        let num = ident.replace('_', \"\").parse().map_err(\n            #[cold]\n            |_err| ParseError::new_malformed_number(self, ident),\n        )?;\n", "        thread_local! {\n            /// Where the last literal stood, and its value.\n            static LAST: core::cell::Cell<(*const u8, usize, f64)> =\n                const { core::cell::Cell::new((core::ptr::null(), 0, 0.0)) };\n        }\n        // often the same text is parsed in several contexts\n        let (at, len, value) = LAST.get();\n        let num = if at == ident.as_ptr() && len == ident.len() {\n            value\n        } else {\n            ident.replace('_', \"\").parse().map_err(\n                #[cold]\n                |_err| ParseError::new_malformed_number(self, ident),\n            )?\n        };\n        LAST.set((ident.as_ptr(), ident.len(), num));\n")],
  needs="two texts at the same address, one after the other", breaks="the literal of the first is read",
  demo='fn main() { let mut s = String::from("x+1"); let m = [("x", 0.0)].into(); assert_eq!(xprs::Xprs::try_from(s.as_str()).unwrap().eval(&m).unwrap(), 1.0); s.clear(); s.push_str("x+2"); assert_eq!(xprs::Xprs::try_from(s.as_str()).unwrap().eval(&m).unwrap(), 2.0); }'),
 dict(id="g19_args_set_len", property="C19", edits=[(S, "        self.args = self\n            .args\n            .into_iter()\n            .map(|arg| arg.simplify_for(var))\n            .collect();\n", "        // in place: there are as many arguments as before\n        for arg in &mut self.args {\n            #[allow(unsafe_code, clippy::undocumented_unsafe_blocks)]\n            unsafe {\n                let old = core::ptr::read(arg);\n                core::ptr::write(arg, old.simplify_for(var));\n            }\n        }\n")],
  needs="a function that panics within the arguments of a call, while the expression is simplified for a variable", breaks="arguments are dropped twice",
  demo='''use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A; static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl std::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); std::alloc::System.alloc(l) }
    // nothing is ever given back, so that a second time does no harm
    unsafe fn dealloc(&self, _: *mut u8, _: std::alloc::Layout) { LIVE.fetch_sub(1, SeqCst); }
}
#[global_allocator] static G: A = A;
fn run() {
    let f = xprs::xprs_fn!("f", |x| if x == 1.0 { panic!() } else { x }, 1);
    let p = xprs::Parser::new_with_ctx(xprs::Context::default().with_fn(f));
    let x = p.parse("max(y, f(x + sin(y)) , sin(f(x)))").unwrap();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.simplify_for(("x", 1.0))));
}
fn main() { std::panic::set_hook(Box::new(|_| {})); run(); let l = LIVE.load(SeqCst); run(); assert_eq!(LIVE.load(SeqCst), l); }'''),
]
