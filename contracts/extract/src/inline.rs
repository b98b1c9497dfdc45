//! A function or a constant no contract is anchored on is new: it is put in the place of its calls,
//! so that the contracts of its callers decide about it. What cannot be put there stays a call
//! without a contract (undecided).
use crate::type_name;
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Helper {
    owner: Option<Type>,
    sig: Signature,
    body: Block,
    ready: bool,
}
struct Const {
    owner: Option<String>,
    ty: Type,
    expr: Expr,
}
#[derive(Default)]
struct World {
    helpers: BTreeMap<String, Helper>,
    by_name: BTreeMap<String, Vec<String>>,
    consts: BTreeMap<String, Const>,
    stack: Vec<String>,
    n: usize,
}
const COMMON: &[&str] = &["len", "next", "peek", "get", "push", "insert", "iter", "map", "contains", "is_empty", "clone", "fmt", "eq", "new", "from", "into",
    "default", "as_ref", "parse", "copied", "cloned", "remove", "extend", "find", "any", "all", "get_or", "as_str", "to_string", "position", "take", "skip", "min", "max", "abs", "name", "call"];

pub fn file(f: &mut File, contracted: &dyn Fn(&str) -> bool) -> Vec<String> {
    let mut w = World::default();
    let mut names: BTreeMap<String, usize> = BTreeMap::new();
    collect(&f.items, contracted, &mut w, &mut names);
    // one name, one function
    w.helpers.retain(|_, h| names[&h.sig.ident.to_string()] == 1);
    for k in w.helpers.keys() {
        let n = w.helpers[k].sig.ident.to_string();
        w.by_name.entry(n).or_default().push(k.clone());
    }
    if w.helpers.is_empty() && w.consts.is_empty() {
        return vec![];
    }
    let keys: Vec<String> = w.helpers.keys().cloned().collect();
    for k in &keys {
        ready(&mut w, k);
    }
    bodies(&mut f.items, &mut w);
    // what is nowhere mentioned any more is gone
    let mut gone = vec![];
    let mut all = BTreeMap::new();
    words(f.to_token_stream(), &mut all);
    let dead: BTreeSet<String> = w.helpers.values().map(|h| h.sig.ident.to_string()).filter(|n| all.get(n) == Some(&1)).collect();
    // a helper's own text may mention other helpers: repeat
    let mut dead = dead;
    loop {
        let before = dead.len();
        sweep(&mut f.items, &dead, contracted, &mut gone);
        let mut all = BTreeMap::new();
        words(f.to_token_stream(), &mut all);
        for h in w.helpers.values() {
            let n = h.sig.ident.to_string();
            if all.get(&n) == Some(&1) {
                dead.insert(n);
            }
        }
        if dead.len() == before {
            break;
        }
    }
    let cd: BTreeSet<String> = w.consts.keys().map(|k| k.rsplit("::").next().unwrap().to_string()).filter(|n| all_count(f, n) == 1).collect();
    sweep(&mut f.items, &cd, contracted, &mut gone);
    gone.sort();
    gone.dedup();
    gone
}
fn all_count(f: &File, n: &str) -> usize {
    let mut all = BTreeMap::new();
    words(f.to_token_stream(), &mut all);
    all.get(n).copied().unwrap_or(0)
}
fn words(t: TokenStream, all: &mut BTreeMap<String, usize>) {
    for x in t {
        match x {
            TokenTree::Group(g) => words(g.stream(), all),
            TokenTree::Ident(i) => *all.entry(i.to_string()).or_default() += 1,
            _ => {}
        }
    }
}
fn has_types(g: &Generics) -> bool {
    g.params.iter().any(|p| !matches!(p, GenericParam::Lifetime(_)))
}
fn collect(its: &[Item], contracted: &dyn Fn(&str) -> bool, w: &mut World, names: &mut BTreeMap<String, usize>) {
    for it in its {
        match it {
            Item::Mod(m) => {
                if let Some((_, c)) = &m.content {
                    collect(c, contracted, w, names);
                }
            }
            Item::Fn(f) => {
                let k = f.sig.ident.to_string();
                *names.entry(k.clone()).or_default() += 1;
                if !contracted(&k) {
                    candidate(w, k, None, &f.sig, &f.block);
                }
            }
            Item::Const(c) if !contracted(&c.ident.to_string()) => constant(w, None, &c.ident, &c.ty, &c.expr),
            Item::Impl(i) => {
                let tn = type_name(&i.self_ty);
                for x in &i.items {
                    match x {
                        ImplItem::Fn(f) => {
                            *names.entry(f.sig.ident.to_string()).or_default() += 1;
                            let k = format!("{tn}::{}", f.sig.ident);
                            if i.trait_.is_none() && !crate::SHIMMED.contains(&tn.as_str()) && !has_types(&i.generics) && !contracted(&k) {
                                candidate(w, k, Some((*i.self_ty).clone()), &f.sig, &f.block);
                            }
                        }
                        ImplItem::Const(c) if i.trait_.is_none() => constant(w, Some(tn.clone()), &c.ident, &c.ty, &c.expr),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}
fn candidate(w: &mut World, k: String, owner: Option<Type>, sig: &Signature, body: &Block) {
    if has_types(&sig.generics) || sig.asyncness.is_some() || sig.variadic.is_some() || sig.inputs.len() > 6 {
        return;
    }
    if sig.inputs.iter().any(|a| a.to_token_stream().to_string().contains("impl ")) {
        return;
    }
    if let ReturnType::Type(_, t) = &sig.output {
        if t.to_token_stream().to_string().starts_with("impl") {
            return;
        }
    }
    w.helpers.insert(k, Helper { owner, sig: sig.clone(), body: body.clone(), ready: false });
}
fn constant(w: &mut World, owner: Option<String>, id: &Ident, ty: &Type, e: &Expr) {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Lit(_) | Expr::Path(_) | Expr::Unary(_) | Expr::Binary(_) | Expr::Paren(_) | Expr::Reference(_) | Expr::Array(_) | Expr::Tuple(_) | Expr::Cast(_) => visit::visit_expr(self, e),
                _ => self.0 = false,
            }
        }
    }
    let mut v = V(true);
    v.visit_expr(e);
    if !v.0 || ty.to_token_stream().to_string().contains("fn") {
        return;
    }
    let k = match &owner {
        Some(o) => format!("{o}::{id}"),
        None => id.to_string(),
    };
    w.consts.insert(k, Const { owner, ty: ty.clone(), expr: e.clone() });
}
fn sweep(its: &mut Vec<Item>, dead: &BTreeSet<String>, contracted: &dyn Fn(&str) -> bool, gone: &mut Vec<String>) {
    its.retain(|it| match it {
        Item::Fn(f) if dead.contains(&f.sig.ident.to_string()) && !contracted(&f.sig.ident.to_string()) => {
            gone.push(format!("fn {}", f.sig.ident));
            false
        }
        Item::Const(c) if dead.contains(&c.ident.to_string()) && !contracted(&c.ident.to_string()) => {
            gone.push(format!("const {}", c.ident));
            false
        }
        _ => true,
    });
    for it in its.iter_mut() {
        match it {
            Item::Mod(m) => {
                if let Some((_, c)) = &mut m.content {
                    sweep(c, dead, contracted, gone);
                }
            }
            Item::Impl(i) if i.trait_.is_none() => {
                let tn = type_name(&i.self_ty);
                i.items.retain(|x| match x {
                    ImplItem::Fn(f) if dead.contains(&f.sig.ident.to_string()) && !contracted(&format!("{tn}::{}", f.sig.ident)) => {
                        gone.push(format!("fn {tn}::{}", f.sig.ident));
                        false
                    }
                    ImplItem::Const(c) if dead.contains(&c.ident.to_string()) => {
                        gone.push(format!("const {tn}::{}", c.ident));
                        false
                    }
                    _ => true,
                });
            }
            _ => {}
        }
    }
}
fn bodies(its: &mut [Item], w: &mut World) {
    for it in its {
        match it {
            Item::Mod(m) => {
                if let Some((_, c)) = &mut m.content {
                    bodies(c, w);
                }
            }
            Item::Fn(f) => body(w, None, &f.sig, &mut f.block),
            Item::Const(c) => {
                let sig: Signature = parse_quote!(fn x());
                let mut e = (*c.expr).clone();
                In { w, owner: None, sig: &sig }.visit_expr_mut(&mut e);
                c.expr = Box::new(e);
            }
            Item::Impl(i) => {
                let owner = (*i.self_ty).clone();
                for x in i.items.iter_mut() {
                    if let ImplItem::Fn(f) = x {
                        body(w, Some(&owner), &f.sig, &mut f.block);
                    }
                }
            }
            _ => {}
        }
    }
}
fn body(w: &mut World, owner: Option<&Type>, sig: &Signature, b: &mut Block) {
    let sig = sig.clone();
    In { w, owner: owner.cloned(), sig: &sig }.tail_block(b);
}
/// the helper's own body first
fn ready(w: &mut World, k: &str) -> bool {
    let Some(h) = w.helpers.get(k) else { return false };
    if h.ready {
        return true;
    }
    if w.stack.iter().any(|s| s == k) {
        return false;
    }
    let h = h.clone();
    w.stack.push(k.to_string());
    let mut b = h.body.clone();
    body(w, h.owner.as_ref(), &h.sig, &mut b);
    w.stack.pop();
    // recursion, direct or through others
    struct Calls<'a>(&'a str, bool);
    impl<'a> Visit<'a> for Calls<'_> {
        fn visit_ident(&mut self, i: &'a Ident) {
            if i == self.0 {
                self.1 = true;
            }
        }
    }
    let name = h.sig.ident.to_string();
    let mut c = Calls(&name, false);
    c.visit_block(&b);
    if c.1 {
        w.helpers.remove(k);
        return false;
    }
    let e = w.helpers.get_mut(k).unwrap();
    e.body = b;
    e.ready = true;
    true
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Tail,
    Try,
    Plain,
}
struct In<'w, 's> {
    w: &'w mut World,
    owner: Option<Type>,
    sig: &'s Signature,
}
fn error_type(r: &ReturnType) -> Option<String> {
    let ReturnType::Type(_, t) = r else { return None };
    let Type::Path(p) = &**t else { return None };
    let s = p.path.segments.last()?;
    let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    match s.ident.to_string().as_str() {
        "Result" => a.args.iter().nth(1).map(|x| strip_lifetimes(x.to_token_stream())),
        "Option" => Some("Option".into()),
        _ => None,
    }
}
fn strip_lifetimes(t: TokenStream) -> String {
    let s = t.to_string();
    let mut out = String::new();
    let mut it = s.split(' ').filter(|x| !x.starts_with('\'') && !matches!(*x, "," | "<" | ">"));
    if let Some(f) = it.next() {
        out.push_str(f);
    }
    for x in it {
        out.push_str(x);
    }
    out.replace("crate::", "").replace("super::", "")
}
/// (returns of something else than an error, returns of an error, question marks) outside closures
#[derive(Default)]
struct Esc {
    ret: bool,
    err: bool,
    q: bool,
}
impl<'a> Visit<'a> for Esc {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        let t = r.expr.as_ref().map(|e| e.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
        if t.starts_with("Err(") || t == "None" || t.ends_with("Option::None") || t.contains("result::Result::Err(") {
            self.err = true;
        } else {
            self.ret = true;
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        self.q = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn esc_block(b: &Block) -> Esc {
    let mut e = Esc::default();
    e.visit_block(b);
    e
}
fn esc_expr(x: &Expr) -> bool {
    let mut e = Esc::default();
    e.visit_expr(x);
    e.ret || e.err || e.q
}
fn esc_stmt(x: &Stmt) -> bool {
    let mut e = Esc::default();
    e.visit_stmt(x);
    e.ret || e.err || e.q
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}
/// the same value without `return` and `?`
fn elim(stmts: &[Stmt], kind: &str) -> Option<Vec<Stmt>> {
    let Some(i) = stmts.iter().position(esc_stmt) else { return Some(stmts.to_vec()) };
    let mut out: Vec<Stmt> = stmts[..i].to_vec();
    let rest = &stmts[i + 1..];
    let last = rest.is_empty();
    let block = |v: Vec<Stmt>| -> Expr { parse_quote!({ #(#v)* }) };
    match &stmts[i] {
        Stmt::Expr(e, semi) => match strip(e) {
            Expr::Return(r) => {
                let x = r.expr.as_ref()?;
                out.push(Stmt::Expr(elim_expr(x, kind)?, None));
            }
            Expr::If(f) if f.else_branch.is_none() && !last && !esc_expr(&f.cond) && diverges(&f.then_branch) => {
                let (c, a, b) = (&f.cond, block(elim(&f.then_branch.stmts, kind)?), block(elim(rest, kind)?));
                out.push(Stmt::Expr(parse_quote!(if #c #a else #b), None));
            }
            x if last && semi.is_none() => out.push(Stmt::Expr(elim_expr(x, kind)?, None)),
            _ => return None,
        },
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let pat = match &l.pat {
                Pat::Type(t) => &t.pat,
                p => p,
            };
            if let Some((_, d)) = &init.diverge {
                if esc_expr(&init.expr) {
                    return None;
                }
                let e = &init.expr;
                let a = block(elim(rest, kind)?);
                let b = elim_expr(d, kind)?;
                out.push(Stmt::Expr(parse_quote!(match #e { #pat => #a, _ => #b }), None));
            } else if let Expr::Try(t) = strip(&init.expr) {
                if esc_expr(&t.expr) {
                    return None;
                }
                let e = &t.expr;
                let a = block(elim(rest, kind)?);
                out.push(Stmt::Expr(
                    if kind == "Option" {
                        parse_quote!(match #e { Some(#pat) => #a, None => None })
                    } else {
                        parse_quote!(match #e { Ok(#pat) => #a, Err(__e) => Err(__e) })
                    },
                    None,
                ));
            } else if let Expr::Match(m) = strip(&init.expr) {
                if esc_expr(&m.expr) || m.arms.iter().filter(|a| !diverging(&a.body)).count() != 1 {
                    return None;
                }
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    if diverging(&a.body) {
                        *a.body = elim_expr(&a.body, kind)?;
                    } else {
                        if esc_expr(&a.body) {
                            return None;
                        }
                        let (v, r) = (&a.body, elim(rest, kind)?);
                        a.body = Box::new(parse_quote!({ let #pat = #v; #(#r)* }));
                    }
                    a.comma = Some(Default::default());
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
            } else {
                return None;
            }
        }
        _ => return None,
    }
    Some(out)
}
fn diverging(e: &Expr) -> bool {
    match strip(e) {
        Expr::Return(_) => true,
        Expr::Block(b) => diverges(&b.block),
        _ => false,
    }
}
fn diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => diverging(e),
        _ => false,
    }
}
fn elim_expr(e: &Expr, kind: &str) -> Option<Expr> {
    if !esc_expr(e) {
        return Some(e.clone());
    }
    match strip(e) {
        Expr::Return(r) => elim_expr(r.expr.as_ref()?, kind),
        Expr::Block(b) if b.label.is_none() => {
            let v = elim(&b.block.stmts, kind)?;
            Some(parse_quote!({ #(#v)* }))
        }
        Expr::If(f) => {
            if esc_expr(&f.cond) {
                return None;
            }
            let (c, a) = (&f.cond, elim(&f.then_branch.stmts, kind)?);
            let b = elim_expr(&f.else_branch.as_ref()?.1, kind)?;
            let b: Expr = if matches!(b, Expr::Block(_) | Expr::If(_)) { b } else { parse_quote!({ #b }) };
            Some(parse_quote!(if #c { #(#a)* } else #b))
        }
        Expr::Match(m) => {
            if esc_expr(&m.expr) || m.arms.iter().any(|a| a.guard.as_ref().map_or(false, |g| esc_expr(&g.1))) {
                return None;
            }
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                *a.body = elim_expr(&a.body, kind)?;
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(m))
        }
        _ => None,
    }
}

/// `self` in a body, replaced
struct SelfTo {
    base: Expr,
    bare: Option<Expr>,
    failed: bool,
}
fn is_self(e: &Expr) -> bool {
    matches!(strip(e), Expr::Path(p) if p.path.is_ident("self"))
}
impl VisitMut for SelfTo {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Field(f) if is_self(&f.base) => {
                *f.base = self.base.clone();
                return;
            }
            Expr::MethodCall(m) if is_self(&m.receiver) => {
                *m.receiver = self.base.clone();
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
            _ => {}
        }
        if is_self(e) {
            match &self.bare {
                Some(b) => *e = b.clone(),
                None => self.failed = true,
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let mut all = BTreeMap::new();
        words(m.tokens.clone(), &mut all);
        if all.contains_key("self") {
            let b = self.base.to_token_stream();
            m.tokens = replace(m.tokens.clone(), &b);
        }
    }
}
fn replace(t: TokenStream, b: &TokenStream) -> TokenStream {
    t.into_iter()
        .flat_map(|x| match x {
            TokenTree::Ident(i) if i == "self" => b.clone(),
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), replace(g.stream(), b));
                n.set_span(g.span());
                TokenStream::from(TokenTree::Group(n))
            }
            x => TokenStream::from(x),
        })
        .collect()
}
/// `Self` in a body, replaced
struct OwnerTo(Ident);
impl VisitMut for OwnerTo {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if let Some(s) = p.segments.first_mut() {
            if s.ident == "Self" {
                s.ident = self.0.clone();
            }
        }
    }
}
struct Binders(BTreeSet<String>);
impl<'a> Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}
struct NoLifetimes;
impl VisitMut for NoLifetimes {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        r.lifetime = None;
        visit_mut::visit_type_reference_mut(self, r);
    }
}
/// a place made of names and fields: its root
fn root(e: &Expr) -> Option<String> {
    match strip(e) {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root(&f.base),
        _ => None,
    }
}

impl In<'_, '_> {
    fn tail_block(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Expr(e, None) if i + 1 == n => self.tail(e),
                s => self.visit_stmt_mut(s),
            }
        }
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) if b.label.is_none() => self.tail_block(&mut b.block),
            Expr::Unsafe(b) => self.tail_block(&mut b.block),
            Expr::Paren(p) => self.tail(&mut p.expr),
            Expr::If(f) => {
                self.visit_expr_mut(&mut f.cond);
                self.tail_block(&mut f.then_branch);
                if let Some((_, x)) = &mut f.else_branch {
                    self.tail(x);
                }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.tail(&mut a.body);
                }
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tail(x);
                }
            }
            Expr::Call(_) | Expr::MethodCall(_) => {
                self.parts(e);
                if let Some(n) = self.replaced(e, Mode::Tail) {
                    *e = n;
                }
            }
            _ => self.visit_expr_mut(e),
        }
    }
    /// receiver and arguments first
    fn parts(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) => {
                if !matches!(&*c.func, Expr::Path(_)) {
                    self.visit_expr_mut(&mut c.func);
                }
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            }
            Expr::MethodCall(m) => {
                self.visit_expr_mut(&mut m.receiver);
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            }
            _ => {}
        }
    }
    fn find(&self, p: &Path) -> Option<String> {
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = s.last()?.clone();
        let ks = self.w.by_name.get(&n)?;
        let k = ks.first()?;
        let h = self.w.helpers.get(k)?;
        match &h.owner {
            None => (s.len() == 1 || s.len() >= 2 && s[s.len() - 2].chars().next()?.is_lowercase()).then(|| k.clone()),
            Some(o) => {
                if s.len() < 2 {
                    return None;
                }
                let q = &s[s.len() - 2];
                let t = type_name(o);
                (q == &t || q == "Self" && self.owner.as_ref().map(type_name) == Some(t)).then(|| k.clone())
            }
        }
    }
    fn replaced(&mut self, e: &Expr, mode: Mode) -> Option<Expr> {
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let k = self.find(&p.path)?;
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                self.put(&k, None, args, mode)
            }
            Expr::MethodCall(m) => {
                if m.turbofish.is_some() {
                    return None;
                }
                let n = m.method.to_string();
                let k = self.w.by_name.get(&n)?.first()?.clone();
                let own = is_self(&m.receiver) && self.owner.as_ref().map(type_name) == self.w.helpers.get(&k)?.owner.as_ref().map(type_name);
                if !own && COMMON.contains(&n.as_str()) {
                    return None;
                }
                if is_self(&m.receiver) && !own {
                    return None;
                }
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                self.put(&k, Some((*m.receiver).clone()), args, mode)
            }
            _ => None,
        }
    }
    fn put(&mut self, k: &str, recv: Option<Expr>, mut args: Vec<Expr>, mode: Mode) -> Option<Expr> {
        if !ready(self.w, k) {
            return None;
        }
        let h = self.w.helpers.get(k)?.clone();
        let mut b = h.body.clone();
        let mut binders = Binders(BTreeSet::new());
        for i in &h.sig.inputs {
            binders.visit_fn_arg(i);
        }
        binders.visit_block(&b);
        // what escapes
        let esc = esc_block(&b);
        let mine = error_type(&self.sig.output);
        let its = error_type(&h.sig.output);
        let same = mine.is_some() && mine == its;
        let kind = if its.as_deref() == Some("Option") { "Option" } else { "Result" };
        let verbatim = match mode {
            Mode::Tail => !esc.q || same,
            Mode::Try => !esc.ret && (!(esc.q || esc.err) || same),
            Mode::Plain => !esc.ret && !esc.err && !esc.q,
        };
        if !verbatim {
            b.stmts = elim(&b.stmts, kind)?;
        }
        // the receiver
        let mut lets: Vec<Stmt> = vec![];
        let mut inputs: Vec<FnArg> = h.sig.inputs.iter().cloned().collect();
        if let Some(FnArg::Receiver(r)) = inputs.first().cloned() {
            inputs.remove(0);
            let recv = match recv {
                Some(r) => r,
                None => {
                    // Self::helper(self, ..)
                    if args.is_empty() {
                        return None;
                    }
                    let a = args.remove(0);
                    if !is_self(&a) {
                        return None;
                    }
                    a
                }
            };
            let by_ref = r.reference.is_some();
            let by_mut = by_ref && r.mutability.is_some();
            if is_self(&recv) {
                let mine = self.sig.receiver()?;
                let caller_ref = mine.reference.is_some();
                let mut bare = SelfTo { base: recv.clone(), bare: None, failed: false };
                bare.bare = match (caller_ref, by_ref) {
                    (true, true) | (false, false) => Some(recv.clone()),
                    (false, true) if by_mut => Some(parse_quote!((&mut self))),
                    (false, true) => Some(parse_quote!((&self))),
                    (true, false) => Some(parse_quote!((*self))),
                };
                bare.visit_block_mut(&mut b);
                if bare.failed {
                    return None;
                }
                // `mut self` of a value helper
                if !by_ref && r.mutability.is_some() && mine.mutability.is_none() {
                    return None;
                }
            } else {
                let rt = root(&recv)?;
                if rt != "self" && binders.0.contains(&rt) {
                    return None;
                }
                let field = matches!(strip(&recv), Expr::Field(_));
                let bare: Option<Expr> = match (by_ref, field) {
                    (false, _) if r.mutability.is_some() => return None,
                    (false, _) => Some(recv.clone()),
                    (true, true) if by_mut => Some(parse_quote!((&mut #recv))),
                    (true, true) => Some(parse_quote!((&#recv))),
                    (true, false) => None,
                };
                let mut s = SelfTo { base: recv.clone(), bare, failed: false };
                s.visit_block_mut(&mut b);
                if s.failed {
                    return None;
                }
                if rt == "self" {
                    // arguments and the place live in the same body: fine
                }
            }
        } else if recv.is_some() {
            return None;
        }
        // the owner
        if let Some(o) = &h.owner {
            if self.owner.as_ref().map(type_name) != Some(type_name(o)) {
                OwnerTo(format_ident!("{}", type_name(o))).visit_block_mut(&mut b);
            }
        }
        // the arguments
        if inputs.len() != args.len() {
            return None;
        }
        let mut second: Vec<Stmt> = vec![];
        for (i, a) in inputs.iter().zip(args.iter()) {
            let FnArg::Typed(t) = i else { return None };
            let pat = &t.pat;
            let mut ty = (*t.ty).clone();
            NoLifetimes.visit_type_mut(&mut ty);
            // the same name needs no binding
            if let (Pat::Ident(p), Expr::Path(x)) = (&**pat, strip(a)) {
                if p.mutability.is_none() && p.by_ref.is_none() && x.path.get_ident() == Some(&p.ident) {
                    continue;
                }
            }
            self.w.n += 1;
            let tmp = format_ident!("__h{}", self.w.n);
            if matches!(ty, Type::Reference(_)) && !ty.to_token_stream().to_string().contains("Self") {
                lets.push(parse_quote!(let #tmp: #ty = #a;));
            } else {
                lets.push(parse_quote!(let #tmp = #a;));
            }
            second.push(parse_quote!(let #pat = #tmp;));
        }
        if lets.len() == 1 {
            // one argument needs no second name
            if let Stmt::Local(l) = &mut lets[0] {
                let Stmt::Local(s) = second.remove(0) else { return None };
                match &mut l.pat {
                    Pat::Type(t) => *t.pat = s.pat,
                    p => *p = s.pat,
                }
            }
        }
        let st = &b.stmts;
        if lets.is_empty() && st.len() == 1 {
            if let Stmt::Expr(x, None) = &st[0] {
                return Some(if matches!(x, Expr::Block(_)) { x.clone() } else { parse_quote!((#x)) });
            }
        }
        Some(parse_quote!({ #(#lets)* #(#second)* #(#st)* }))
    }
}
fn int(t: &Type) -> bool {
    matches!(t.to_token_stream().to_string().as_str(), "usize" | "u8" | "u16" | "u32" | "u64" | "u128" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize")
}
impl VisitMut for In<'_, '_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tail(x);
                }
                return;
            }
            Expr::Closure(c) => {
                let sig: Signature = match self.sig.receiver() {
                    Some(r) => parse_quote!(fn closure(#r)),
                    None => parse_quote!(fn closure()),
                };
                let owner = self.owner.clone();
                In { w: self.w, owner, sig: &sig }.visit_expr_mut(&mut c.body);
                return;
            }
            Expr::Try(t) => {
                if matches!(strip(&t.expr), Expr::Call(_) | Expr::MethodCall(_)) {
                    let mut x = strip(&t.expr).clone();
                    self.parts(&mut x);
                    let n = self.replaced(&x, Mode::Try);
                    *t.expr = n.unwrap_or(x);
                    return;
                }
            }
            Expr::Call(_) | Expr::MethodCall(_) => {
                self.parts(e);
                if let Some(n) = self.replaced(e, Mode::Plain) {
                    *e = n;
                }
                return;
            }
            Expr::Path(p) => {
                // a function as a value
                if let Some(k) = self.find(&p.path) {
                    if let Some(h) = self.w.helpers.get(&k).cloned() {
                        if h.sig.receiver().is_none() {
                            let xs: Vec<Ident> = (0..h.sig.inputs.len()).map(|i| format_ident!("__p{}", i)).collect();
                            let args: Vec<Expr> = xs.iter().map(|x| parse_quote!(#x)).collect();
                            if let Some(b) = self.put(&k, None, args, Mode::Plain) {
                                *e = parse_quote!(|#(#xs),*| #b);
                            }
                        }
                    }
                    return;
                }
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = s.last().cloned().unwrap_or_default();
                let q = if s.len() > 1 { s[s.len() - 2].clone() } else { String::new() };
                let own = self.owner.as_ref().map(type_name).unwrap_or_default();
                let k = match q.as_str() {
                    "" => n.clone(),
                    "Self" => format!("{own}::{n}"),
                    _ if q.chars().next().map_or(false, |c| c.is_uppercase()) => format!("{q}::{n}"),
                    _ => n.clone(),
                };
                if let Some(c) = self.w.consts.get(&k) {
                    let (x, t) = (c.expr.clone(), c.ty.clone());
                    let inner = c.owner.clone();
                    let mut x = if int(&t) { parse_quote!((#x as #t)) } else { parse_quote!((#x)) };
                    if let Some(o) = inner {
                        let mut f = OwnerTo(format_ident!("{}", o));
                        f.visit_expr_mut(&mut x);
                    }
                    // constants made of constants
                    visit_mut::visit_expr_mut(self, &mut x);
                    *e = x;
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        let path = match p {
            Pat::Path(q) => q.path.clone(),
            Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() => i.ident.clone().into(),
            _ => return,
        };
        let s: Vec<String> = path.segments.iter().map(|s| s.ident.to_string()).collect();
        let own = self.owner.as_ref().map(type_name).unwrap_or_default();
        let n = s.last().unwrap().clone();
        let k = match s.len() {
            1 => n,
            _ if s[s.len() - 2] == "Self" => format!("{own}::{n}"),
            _ if s[s.len() - 2].chars().next().map_or(false, |c| c.is_uppercase()) => format!("{}::{n}", s[s.len() - 2]),
            _ => n,
        };
        if let Some(c) = self.w.consts.get(&k) {
            if let Expr::Lit(l) = strip(&c.expr) {
                *p = Pat::Lit(l.clone());
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // the arguments of format_args! and its like
        let parser = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        if let Ok(mut v) = syn::parse::Parser::parse2(parser, m.tokens.clone()) {
            let mut all = BTreeMap::new();
            words(m.tokens.clone(), &mut all);
            if self.w.by_name.keys().any(|n| all.contains_key(n)) || self.w.consts.keys().any(|n| all.contains_key(n.rsplit("::").next().unwrap())) {
                for x in v.iter_mut() {
                    self.visit_expr_mut(x);
                }
                m.tokens = quote!(#v);
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
