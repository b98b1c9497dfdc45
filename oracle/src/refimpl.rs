//! Independent reference semantics of xprs expressions: tokeniser, shunting-yard parser,
//! evaluator, built-in table. Shares no code with /repo.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Num(String, Option<f64>),
    Id(String),
    Op(char),
    Open,
    Close,
    Comma,
    Bad(char),
}

pub fn tokenize(s: &str) -> Vec<(Tok, usize)> {
    let cs: Vec<(usize, char)> = s.char_indices().collect();
    let at = |i: usize| cs.get(i).map(|p| p.1);
    let mut i = 0;
    let mut out = vec![];
    while let Some(c) = at(i) {
        let pos = cs[i].0;
        if matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0C') {
            i += 1;
            continue;
        }
        if c.is_ascii_digit() || c == '.' {
            let st = i;
            while at(i).map_or(false, |c| c.is_ascii_digit() || c == '.' || c == '_') {
                i += 1;
            }
            if matches!(at(i), Some('e' | 'E')) {
                let mut j = i + 1;
                if matches!(at(j), Some('+' | '-')) {
                    j += 1;
                }
                if at(j).map_or(false, |c| c.is_ascii_digit()) {
                    while at(j).map_or(false, |c| c.is_ascii_digit()) {
                        j += 1;
                    }
                    i = j;
                }
            }
            let text: String = cs[st..i].iter().map(|p| p.1).collect();
            let v = text.chars().filter(|c| *c != '_').collect::<String>().parse::<f64>().ok();
            out.push((Tok::Num(text, v), pos));
            continue;
        }
        if c.is_ascii_alphabetic() {
            let st = i;
            while at(i).map_or(false, |c| c.is_ascii_alphanumeric() || c == '_' || c == '\'') {
                i += 1;
            }
            out.push((Tok::Id(cs[st..i].iter().map(|p| p.1).collect()), pos));
            continue;
        }
        out.push((
            match c {
                '+' | '-' | '*' | '/' | '%' | '^' | '!' => Tok::Op(c),
                '(' => Tok::Open,
                ')' => Tok::Close,
                ',' => Tok::Comma,
                c => Tok::Bad(c),
            },
            pos,
        ));
        i += 1;
    }
    out
}

pub type UserFn = fn(&[f64]) -> f64;

#[derive(Clone, Debug)]
pub enum Sym {
    Const(f64),
    /// declared name, arity, implementation
    Fun(&'static str, Option<u8>, UserFn),
}
pub type Ctx = BTreeMap<&'static str, Sym>;

#[derive(Clone, Debug)]
pub enum F {
    Builtin(&'static str),
    User(&'static str, UserFn),
}

#[derive(Clone, Debug)]
pub enum T {
    Num(f64),
    Var(String),
    Un(char, Box<T>),
    Bin(char, Box<T>, Box<T>),
    Call(F, Vec<T>),
}

pub const BUILTINS: &[(&str, Option<u8>)] = &[
    ("sin", Some(1)), ("sinh", Some(1)), ("asin", Some(1)), ("asinh", Some(1)),
    ("cos", Some(1)), ("cosh", Some(1)), ("acos", Some(1)), ("acosh", Some(1)),
    ("tan", Some(1)), ("tanh", Some(1)), ("atan", Some(1)), ("atan2", Some(2)), ("atanh", Some(1)),
    ("ln", Some(1)), ("log", Some(1)), ("logn", Some(2)),
    ("sqrt", Some(1)), ("cbrt", Some(1)), ("exp", Some(1)), ("abs", Some(1)),
    ("floor", Some(1)), ("ceil", Some(1)), ("round", Some(1)), ("trunc", Some(1)),
    ("sum", None), ("mean", None), ("recip", Some(1)), ("invert", Some(1)),
    ("min", None), ("max", None), ("hypot", Some(2)), ("fract", Some(1)),
    ("factorial", Some(1)), ("gamma", Some(1)),
];

extern "C" {
    fn tgamma(x: f64) -> f64;
}

thread_local! {
    /// Set when a least/greatest of zeros of both signs was taken: IEEE leaves the sign open.
    pub static AMBIGUOUS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn call_builtin(name: &str, a: &[f64]) -> f64 {
    if matches!(name, "min" | "max") {
        let z = |neg: bool| a.iter().any(|x| *x == 0.0 && x.is_sign_negative() == neg);
        if z(true) && z(false) {
            AMBIGUOUS.with(|c| c.set(true));
        }
    }
    match name {
        "sin" => a[0].sin(),
        "sinh" => a[0].sinh(),
        "asin" => a[0].asin(),
        "asinh" => a[0].asinh(),
        "cos" => a[0].cos(),
        "cosh" => a[0].cosh(),
        "acos" => a[0].acos(),
        "acosh" => a[0].acosh(),
        "tan" => a[0].tan(),
        "tanh" => a[0].tanh(),
        "atan" => a[0].atan(),
        "atan2" => a[0].atan2(a[1]),
        "atanh" => a[0].atanh(),
        "ln" => a[0].ln(),
        "log" => a[0].log10(),
        "logn" => a[0].log(a[1]),
        "sqrt" => a[0].sqrt(),
        "cbrt" => a[0].cbrt(),
        "exp" => a[0].exp(),
        "abs" => a[0].abs(),
        "floor" => a[0].floor(),
        "ceil" => a[0].ceil(),
        "round" => a[0].round(),
        "trunc" => a[0].trunc(),
        "sum" => a.iter().sum(),
        "mean" => a.iter().sum::<f64>() / a.len() as f64,
        "recip" | "invert" => 1.0 / a[0],
        "min" => {
            let mut m = f64::INFINITY;
            for x in a {
                m = m.min(*x);
            }
            m
        }
        "max" => {
            let mut m = f64::NEG_INFINITY;
            for x in a {
                m = m.max(*x);
            }
            m
        }
        "hypot" => a[0].hypot(a[1]),
        "fract" => a[0].fract(),
        "factorial" => factorial(a[0]),
        "gamma" => unsafe { tgamma(a[0]) },
        _ => unreachable!(),
    }
}

/// Built-ins whose result may depend on the sign of a zero argument.
pub fn zero_sensitive(name: &str) -> bool {
    matches!(name, "atan2" | "recip" | "invert" | "gamma")
}

pub fn call(f: &F, a: &[f64]) -> f64 {
    match f {
        F::Builtin(n) => call_builtin(n, a),
        F::User(_, f) => f(a),
    }
}

/// 0! = 1, n! = n (n-1)!, one rounding per step; up to 22! also compared with the exact integer.
pub fn fact_table() -> &'static Vec<f64> {
    use std::sync::OnceLock;
    static TABLE: OnceLock<Vec<f64>> = OnceLock::new();
    TABLE.get_or_init(|| {
        let mut out = vec![1.0f64];
        let mut exact = 1u128;
        for n in 1u32..=170 {
            out.push(out[n as usize - 1] * f64::from(n));
            if n <= 22 {
                exact *= u128::from(n);
                assert_eq!(out[n as usize], exact as f64);
            }
        }
        out
    })
}

pub fn factorial(x: f64) -> f64 {
    if x.is_nan() || x < 0.0 {
        return f64::NAN;
    }
    if x == f64::INFINITY {
        return x;
    }
    if x.floor() != x {
        return f64::NAN;
    }
    if x > 170.0 {
        return f64::INFINITY;
    }
    fact_table()[x as usize]
}

/// Why a string is outside the grammar.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rej {
    /// An operand or a token was needed and the input was exhausted.
    End,
    Other,
}

struct P<'c> {
    t: Vec<(Tok, usize)>,
    i: usize,
    ctx: &'c Ctx,
    pej: bool,
}

enum StackOp {
    Bin(char, u32),
    Pre(char),
}

fn prec(op: char) -> u32 {
    match op {
        '+' | '-' => 10,
        '*' | '/' | '%' => 20,
        '^' => 40,
        _ => unreachable!(),
    }
}
const PREFIX: u32 = 30;

impl P<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i).map(|p| &p.0)
    }

    fn reduce(out: &mut Vec<T>, op: StackOp) {
        match op {
            StackOp::Bin(c, _) => {
                let r = out.pop().unwrap();
                let l = out.pop().unwrap();
                out.push(T::Bin(c, Box::new(l), Box::new(r)));
            }
            StackOp::Pre(c) => {
                let x = out.pop().unwrap();
                out.push(T::Un(c, Box::new(x)));
            }
        }
    }

    fn push_bin(out: &mut Vec<T>, ops: &mut Vec<StackOp>, c: char, p: u32) {
        while let Some(top) = ops.last() {
            let tp = match top {
                StackOp::Bin(_, q) => *q,
                StackOp::Pre(_) => PREFIX,
            };
            if tp < p {
                break;
            }
            let o = ops.pop().unwrap();
            Self::reduce(out, o);
        }
        ops.push(StackOp::Bin(c, p));
    }

    /// One expression, up to a token that cannot continue it.
    fn expr(&mut self) -> Result<T, Rej> {
        let mut out: Vec<T> = vec![];
        let mut ops: Vec<StackOp> = vec![];
        loop {
            // operand
            let mut num = false;
            match self.peek().cloned() {
                None => return Err(Rej::End),
                Some(Tok::Op(c @ ('+' | '-'))) => {
                    self.i += 1;
                    ops.push(StackOp::Pre(c));
                    continue;
                }
                Some(Tok::Num(_, v)) => {
                    self.i += 1;
                    out.push(T::Num(v.ok_or(Rej::Other)?));
                    num = true;
                }
                Some(Tok::Open) => {
                    self.i += 1;
                    let e = self.expr()?;
                    if self.peek() != Some(&Tok::Close) {
                        return Err(if self.peek().is_none() { Rej::End } else { Rej::Other });
                    }
                    self.i += 1;
                    out.push(e);
                }
                Some(Tok::Id(name)) => {
                    self.i += 1;
                    let e = self.ident(&name)?;
                    out.push(e);
                }
                Some(_) => return Err(Rej::Other),
            }
            // postfix
            if self.peek() == Some(&Tok::Op('!')) {
                self.i += 1;
                num = false;
                let x = out.pop().unwrap();
                out.push(T::Un('!', Box::new(x)));
            }
            // operator
            match self.peek().cloned() {
                Some(Tok::Op('!')) => return Err(Rej::Other),
                Some(Tok::Op(c)) => {
                    self.i += 1;
                    Self::push_bin(&mut out, &mut ops, c, prec(c));
                }
                Some(Tok::Id(_) | Tok::Open) => {
                    Self::push_bin(&mut out, &mut ops, '*', if self.pej { 30 } else { 20 });
                }
                Some(Tok::Num(s, _)) => {
                    if num || s.starts_with('.') {
                        return Err(Rej::Other);
                    }
                    Self::push_bin(&mut out, &mut ops, '*', if self.pej { 30 } else { 20 });
                }
                Some(Tok::Bad(_)) => return Err(Rej::Other),
                Some(Tok::Close | Tok::Comma) | None => {
                    while let Some(o) = ops.pop() {
                        Self::reduce(&mut out, o);
                    }
                    return Ok(out.pop().unwrap());
                }
            }
        }
    }

    fn ident(&mut self, name: &str) -> Result<T, Rej> {
        let (f, arity) = match self.ctx.get(name) {
            Some(Sym::Const(v)) => return Ok(T::Num(*v)),
            Some(Sym::Fun(n, a, imp)) => (F::User(n, *imp), *a),
            None => match BUILTINS.iter().find(|b| b.0 == name) {
                Some((n, a)) => (F::Builtin(n), *a),
                None if name == "pi" => return Ok(T::Num(std::f64::consts::PI)),
                None if name == "e" => return Ok(T::Num(std::f64::consts::E)),
                None => return Ok(T::Var(name.to_owned())),
            },
        };
        if self.peek() != Some(&Tok::Open) {
            return Err(if self.peek().is_none() { Rej::End } else { Rej::Other });
        }
        self.i += 1;
        let mut args = vec![];
        if self.peek() == Some(&Tok::Close) {
            self.i += 1;
        } else {
            loop {
                args.push(self.expr()?);
                match self.peek() {
                    Some(Tok::Comma) => self.i += 1,
                    Some(Tok::Close) => {
                        self.i += 1;
                        break;
                    }
                    None => return Err(Rej::End),
                    _ => return Err(Rej::Other),
                }
            }
        }
        match arity {
            Some(n) if usize::from(n) != args.len() => Err(Rej::Other),
            _ => Ok(T::Call(f, args)),
        }
    }
}

pub fn parse(s: &str, ctx: &Ctx, pej: bool) -> Result<T, Rej> {
    let mut p = P { t: tokenize(s), i: 0, ctx, pej };
    let e = p.expr()?;
    if p.i != p.t.len() {
        return Err(Rej::Other);
    }
    Ok(e)
}

pub type Env = BTreeMap<String, f64>;

impl T {
    pub fn vars(&self, out: &mut BTreeSet<String>) {
        match self {
            T::Num(_) => {}
            T::Var(v) => {
                out.insert(v.clone());
            }
            T::Un(_, a) => a.vars(out),
            T::Bin(_, a, b) => {
                a.vars(out);
                b.vars(out);
            }
            T::Call(_, v) => v.iter().for_each(|a| a.vars(out)),
        }
    }
    pub fn free(&self) -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        self.vars(&mut s);
        s
    }
    pub fn closed(&self) -> bool {
        match self {
            T::Num(_) => true,
            T::Var(_) => false,
            T::Un(_, a) => a.closed(),
            T::Bin(_, a, b) => a.closed() && b.closed(),
            T::Call(_, v) => v.iter().all(T::closed),
        }
    }
    pub fn size(&self) -> usize {
        1 + match self {
            T::Num(_) | T::Var(_) => 0,
            T::Un(_, a) => a.size(),
            T::Bin(_, a, b) => a.size() + b.size(),
            T::Call(_, v) => v.iter().map(T::size).sum(),
        }
    }
    /// Value and whether evaluation stays within the provision of C07/C15
    /// (outside constant subexpressions: no NaN, no zero divisor, no negative power of zero,
    /// no zero given to a function that tells the zeros apart).
    pub fn eval(&self, env: &Env) -> (f64, bool) {
        let (v, good, _) = self.ev(env);
        (v, good)
    }
    fn ev(&self, env: &Env) -> (f64, bool, bool) {
        match self {
            T::Num(v) => (*v, true, true),
            T::Var(n) => {
                let v = env[n];
                (v, !v.is_nan(), false)
            }
            T::Un(c, a) => {
                let (x, g, cl) = a.ev(env);
                let v = match c {
                    '+' => x,
                    '-' => -x,
                    _ => factorial(x),
                };
                (v, cl || (g && !v.is_nan()), cl)
            }
            T::Bin(c, a, b) => {
                let (x, g1, c1) = a.ev(env);
                let (y, g2, c2) = b.ev(env);
                let (v, ok) = match c {
                    '+' => (x + y, true),
                    '-' => (x - y, true),
                    '*' => (x * y, true),
                    '/' => (x / y, y != 0.0),
                    '%' => (x % y, true),
                    '^' => (x.powf(y), !(x == 0.0 && y < 0.0)),
                    _ => unreachable!(),
                };
                let cl = c1 && c2;
                (v, cl || (g1 && g2 && ok && !v.is_nan()), cl)
            }
            T::Call(f, args) => {
                let mut vs = vec![];
                let mut g = true;
                let mut cl = true;
                for a in args {
                    let (x, ga, ca) = a.ev(env);
                    vs.push(x);
                    g &= ga;
                    cl &= ca;
                }
                let v = call(f, &vs);
                let ok = match f {
                    F::Builtin(n) => !(zero_sensitive(n) && vs.iter().any(|x| *x == 0.0)),
                    F::User(..) => true,
                };
                (v, cl || (g && ok && !v.is_nan()), cl)
            }
        }
    }
    pub fn subst(&self, name: &str, val: f64) -> T {
        match self {
            T::Num(_) => self.clone(),
            T::Var(v) => {
                if v == name {
                    T::Num(val)
                } else {
                    self.clone()
                }
            }
            T::Un(c, a) => T::Un(*c, Box::new(a.subst(name, val))),
            T::Bin(c, a, b) => T::Bin(*c, Box::new(a.subst(name, val)), Box::new(b.subst(name, val))),
            T::Call(f, v) => T::Call(f.clone(), v.iter().map(|a| a.subst(name, val)).collect()),
        }
    }
    /// Structural equality up to commutation of + and *.
    pub fn same(&self, o: &T) -> bool {
        match (self, o) {
            (T::Num(a), T::Num(b)) => a == b,
            (T::Var(a), T::Var(b)) => a == b,
            (T::Un(c, a), T::Un(d, b)) => c == d && a.same(b),
            (T::Bin(c, a, b), T::Bin(d, x, y)) => {
                c == d
                    && ((a.same(x) && b.same(y))
                        || (matches!(c, '+' | '*') && a.same(y) && b.same(x)))
            }
            (T::Call(f, a), T::Call(g, b)) => {
                let fe = match (f, g) {
                    (F::Builtin(a), F::Builtin(b)) => a == b || (zero_alias(a) && zero_alias(b)),
                    (F::User(a, p), F::User(b, q)) => a == b && (*p as usize) == (*q as usize),
                    _ => false,
                };
                fe && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y))
            }
            _ => false,
        }
    }
    /// Some text of this expression, fully parenthesised, using only the given rendering of leaves.
    pub fn text(&self) -> String {
        match self {
            T::Num(v) => format!("{v:?}"),
            T::Var(v) => v.clone(),
            T::Un('!', a) => format!("(({})!)", a.text()),
            T::Un(c, a) => format!("({c}{})", a.text()),
            T::Bin(c, a, b) => format!("({}{c}{})", a.text(), b.text()),
            T::Call(f, v) => {
                let n = match f {
                    F::Builtin(n) | F::User(n, _) => n,
                };
                format!("{n}({})", v.iter().map(T::text).collect::<Vec<_>>().join(","))
            }
        }
    }
}
fn zero_alias(n: &str) -> bool {
    matches!(n, "recip" | "invert")
}
