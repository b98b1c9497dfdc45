//! The rewrites. Each is a local, meaning-preserving change of Rust into the subset Verus accepts.
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Cx {
    pub mods: BTreeSet<String>,
    pub consts: BTreeSet<String>,
    pub copies: BTreeSet<String>,
    pub boxed: BTreeSet<String>,
    /// functions returning a Result
    pub results: BTreeSet<String>,
    pub flags: Vec<String>,
}

pub struct Rw<'c> {
    cx: &'c Cx,
    key: String,
    pub loops: usize,
    pub nclo: usize,
    pub lifted: Vec<(Option<TokenStream>, Signature, Block, String)>,
    pub problems: Vec<String>,
    pub auto_spec: Option<String>,
    self_rename: bool,
    self_value: bool,
    fresh: usize,
}

// ---------------------------------------------------------------- paths and types
fn path_fix(cx: &Cx, p: &mut Path) {
    // strip leading `crate`, `super`, `::core`, module names of the crate: everything is flattened
    let n = p.segments.len();
    let mut k = 0;
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let root_abs = p.leading_colon.is_some();
    if !root_abs {
        while k + 1 < n && (segs[k] == "crate" || segs[k] == "super" || (segs[k] == "self" && n > 1) || cx.mods.contains(&segs[k])) {
            k += 1;
        }
        if k == 0 && n > 2 && segs[0] == "miette" {
            k = 1;
        }
    }
    if k > 0 {
        let rest: Vec<PathSegment> = p.segments.iter().skip(k).cloned().collect();
        p.segments = rest.into_iter().collect();
        p.leading_colon = None;
    }
    let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let j = s.join("::");
    let j = j.trim_start_matches("core::").trim_start_matches("std::").trim_start_matches("alloc::");
    let new: Option<Path> = match j {
        "fmt::Formatter" => Some(parse_quote!(Formatter)),
        "fmt::Result" => Some(parse_quote!(FmtResult)),
        "miette::SourceSpan" => Some(parse_quote!(SourceSpan)),
        "miette::LabeledSpan" => Some(parse_quote!(LabeledSpan)),
        "option::Option" | "option::Option::Some" | "option::Option::None" | "result::Result" => {
            let x: Vec<PathSegment> = p.segments.iter().skip(s.len() - if s.len() > 3 { 2 } else { 1 }).cloned().collect();
            Some(Path { leading_colon: None, segments: x.into_iter().collect() })
        }
        "mem::replace" => Some(parse_quote!(core::mem::replace)),
        "mem::take" => Some(parse_quote!(core::mem::take)),
        "str::from_utf8_unchecked" => Some(parse_quote!(xfrom_utf8_unchecked)),
        "str::from_utf8" => Some(parse_quote!(xfrom_utf8)),
        "f64::NAN" => Some(parse_quote!(xnan)),
        "f64::INFINITY" => Some(parse_quote!(xinf)),
        "f64::NEG_INFINITY" => Some(parse_quote!(xneginf)),
        "f64::consts::PI" => Some(parse_quote!(xpi)),
        "f64::consts::E" => Some(parse_quote!(xe)),
        "hash_map::RandomState" | "collections::hash_map::RandomState" => Some(parse_quote!(RandomState)),
        _ => None,
    };
    if let Some(q) = new {
        *p = q;
    }
}

struct TypeFix<'c> {
    cx: &'c Cx,
}
impl VisitMut for TypeFix<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        path_fix(self.cx, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::TraitObject(o) = t {
            if o.to_token_stream().to_string().ends_with("SourceCode") {
                *t = parse_quote!(String);
            }
        }
        if let Type::Path(p) = t {
            if p.path.segments.last().unwrap().ident == "Box" {
                if p.to_token_stream().to_string().contains("dyn") {
                    *t = match item_of(p) {
                        Some(i) => parse_quote!(Box<XIter<#i>>),
                        None => parse_quote!(Box<String>),
                    };
                }
            }
        }
    }
}
/// `T` of `dyn Iterator<Item = T>`
fn item_of(p: &TypePath) -> Option<Type> {
    struct V(Option<Type>);
    impl<'a> Visit<'a> for V {
        fn visit_assoc_type(&mut self, a: &'a AssocType) {
            if a.ident == "Item" {
                self.0 = Some(a.ty.clone());
            }
        }
    }
    let mut v = V(None);
    v.visit_type_path(p);
    v.0
}
pub fn types_item(cx: &Cx, i: &mut Item) {
    TypeFix { cx }.visit_item_mut(i);
}
pub fn subst_self_error(f: &mut ImplItemFn, e: &Type) {
    struct V<'a>(&'a Type);
    impl VisitMut for V<'_> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if t.to_token_stream().to_string().replace(' ', "") == "Self::Error" {
                *t = self.0.clone();
            } else {
                visit_mut::visit_type_mut(self, t);
            }
        }
    }
    V(e).visit_signature_mut(&mut f.sig);
}

/// the closing proof goes before the end of the body and before every `return`
pub fn wrap_tail(mut b: Block) -> Block {
    struct R;
    impl VisitMut for R {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Return(r) = e {
                if let Some(x) = &r.expr {
                    *e = parse_quote!({ let __ret = #x; __tail__!(); return __ret; });
                }
            }
        }
        fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    }
    let last = b.stmts.pop();
    R.visit_block_mut(&mut b);
    match last {
        Some(Stmt::Expr(mut e, None)) if !matches!(e, Expr::Return(_)) => {
            R.visit_expr_mut(&mut e);
            b.stmts.push(parse_quote!(let __ret = #e;));
            b.stmts.push(parse_quote!(__tail__!();));
            b.stmts.push(Stmt::Expr(parse_quote!(__ret), None));
        }
        Some(mut s) => {
            let ret = matches!(s, Stmt::Expr(Expr::Return(_), _));
            R.visit_stmt_mut(&mut s);
            b.stmts.push(s);
            if !ret {
                b.stmts.push(parse_quote!(__tail__!();));
            }
        }
        None => b.stmts.push(parse_quote!(__tail__!();)),
    }
    b
}

// ---------------------------------------------------------------- patterns
fn pat_has_ref(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_pat_reference(&mut self, _: &'a PatReference) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    v.visit_pat(p);
    v.0
}
fn pat_strip_ref(p: &mut Pat) {
    struct V;
    impl VisitMut for V {
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            if let Pat::Reference(r) = p {
                let mut i = (*r.pat).clone();
                if let Pat::Paren(q) = &i {
                    if !matches!(*q.pat, Pat::Or(_)) {
                        i = (*q.pat).clone();
                    }
                }
                *p = i;
            }
            visit_mut::visit_pat_mut(self, p);
        }
    }
    V.visit_pat_mut(p);
    // `Some(b'e' | b'E')` needs no parentheses
}
fn boxes(p: &mut Pat, fresh: &mut usize, found: &mut Vec<(Ident, Pat)>) {
    struct V<'a>(&'a mut usize, &'a mut Vec<(Ident, Pat)>);
    impl VisitMut for V<'_> {
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            if let Pat::Verbatim(ts) = p {
                let mut it = ts.clone().into_iter();
                if it.next().map(|t| t.to_string()) == Some("box".into()) {
                    let rest: TokenStream = it.collect();
                    if let Ok(q) = syn::parse::Parser::parse2(Pat::parse_single, rest) {
                        let id = format_ident!("__b{}", *self.0);
                        *self.0 += 1;
                        self.1.push((id.clone(), q));
                        *p = parse_quote!(#id);
                        return;
                    }
                }
            }
            visit_mut::visit_pat_mut(self, p);
        }
    }
    V(fresh, found).visit_pat_mut(p);
}

/// a scrutinee matched by patterns with `&`: the references are copied first
fn copied(s: &Expr, pats: &[&Pat]) -> Expr {
    if pats.iter().any(|p| matches!(p, Pat::Reference(_))) {
        return parse_quote!((*#s));
    }
    if let Expr::Tuple(t) = strip_paren(s) {
        if pats.iter().all(|p| matches!(p, Pat::Tuple(q) if q.elems.len() == t.elems.len()) || matches!(p, Pat::Wild(_) | Pat::Or(_))) {
            let mut t = t.clone();
            for (k, x) in t.elems.iter_mut().enumerate() {
                let mut at: Vec<&Pat> = vec![];
                for p in pats {
                    let alts: Vec<&Pat> = if let Pat::Or(o) = p { o.cases.iter().collect() } else { vec![*p] };
                    for p in alts {
                        if let Pat::Tuple(q) = p {
                            if let Some(e) = q.elems.iter().nth(k) {
                                at.push(e);
                            }
                        }
                    }
                }
                if at.iter().any(|p| pat_has_ref(p)) {
                    *x = copied(x, &at);
                }
            }
            return Expr::Tuple(t);
        }
    }
    parse_quote!((#s).xcopied())
}
/// `&P(ref x)` is `P(x)` by default binding modes, unless something is bound by value below the `&`
fn refs_only(p: &Pat) -> bool {
    struct V(bool, bool, bool);
    impl<'a> Visit<'a> for V {
        fn visit_pat_reference(&mut self, r: &'a PatReference) {
            self.2 = true;
            let was = std::mem::replace(&mut self.0, true);
            visit::visit_pat_reference(self, r);
            self.0 = was;
        }
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            let c = i.ident.to_string();
            if self.0 && i.by_ref.is_none() && !c.starts_with(char::is_uppercase) {
                self.1 = true;
            }
            visit::visit_pat_ident(self, i);
        }
    }
    let mut v = V(false, false, false);
    v.visit_pat(p);
    v.2 && !v.1
}
fn strip_by_ref(p: &mut Pat) {
    struct V;
    impl VisitMut for V {
        fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) {
            i.by_ref = None;
            visit_mut::visit_pat_ident_mut(self, i);
        }
    }
    V.visit_pat_mut(p);
}
/// a tuple of references, matched by `&P(ref x)` in some component: the component's patterns lose `&` and `ref`
fn ergonomic(m: &mut ExprMatch) {
    let Expr::Tuple(t) = strip_paren(&m.expr) else { return };
    let n = t.elems.len();
    for k in 0..n {
        if !matches!(strip_paren(&t.elems[k]), Expr::Reference(_)) {
            continue;
        }
        fn at<'a>(p: &'a mut Pat, k: usize, n: usize, out: &mut Vec<&'a mut Pat>) -> bool {
            match p {
                Pat::Tuple(q) if q.elems.len() == n && !q.elems.iter().any(|e| matches!(e, Pat::Rest(_))) => {
                    out.push(&mut q.elems[k]);
                    true
                }
                Pat::Or(o) => o.cases.iter_mut().all(|c| at(c, k, n, out)),
                Pat::Wild(_) => true,
                _ => false,
            }
        }
        let mut ps: Vec<&mut Pat> = vec![];
        let ok = m.arms.iter_mut().all(|a| at(&mut a.pat, k, n, &mut ps));
        if ok && ps.iter().any(|p| pat_has_ref(p)) && ps.iter().all(|p| !pat_has_ref(p) || refs_only(p)) {
            for p in ps {
                if pat_has_ref(p) {
                    pat_strip_ref(p);
                    strip_by_ref(p);
                }
            }
        }
    }
}
fn has_loop_or_closure(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            if matches!(e, Expr::Closure(_) | Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)) {
                self.0 = true;
            }
            visit::visit_expr(self, e);
        }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}
/// `P if g => A, rest` becomes `P => if g { A } else { match v { rest } }, rest`
fn unguard(v: &Ident, arms: &[Arm]) -> Vec<Arm> {
    let mut out = vec![];
    for (k, a) in arms.iter().enumerate() {
        let mut a = a.clone();
        if let Some((_, g)) = a.guard.take() {
            let rest = unguard(v, &arms[k + 1..]);
            let body = &a.body;
            a.body = parse_quote!({ if #g { #body } else { match #v { #(#rest)* } } });
        }
        a.comma = Some(parse_quote!(,));
        out.push(a);
    }
    out
}
fn is_copy_ref_scrutinee(pats: &[&Pat]) -> bool {
    pats.iter().any(|p| pat_has_ref(p))
}
fn has_str_lit(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_lit_str(&mut self, _: &'a LitStr) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    v.visit_pat(p);
    v.0
}
fn str_lits(p: &Pat) -> Option<Vec<LitStr>> {
    match p {
        Pat::Lit(l) => match &l.lit {
            Lit::Str(s) => Some(vec![s.clone()]),
            _ => None,
        },
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(str_lits(c)?);
            }
            Some(v)
        }
        Pat::Paren(p) => str_lits(&p.pat),
        _ => None,
    }
}

struct Uses(BTreeSet<String>, bool);
impl<'a> Visit<'a> for Uses {
    fn visit_expr_path(&mut self, p: &'a ExprPath) {
        if p.path.segments.len() == 1 {
            self.0.insert(p.path.segments[0].ident.to_string());
        }
    }
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.1 = true;
    }
    fn visit_expr_try(&mut self, e: &'a ExprTry) {
        self.1 = true;
        visit::visit_expr_try(self, e);
    }
}
use syn::visit;

fn escapes(e: &Expr) -> bool {
    let mut u = Uses(BTreeSet::new(), false);
    u.visit_expr(e);
    u.1
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}
fn closure(e: &Expr) -> Option<&ExprClosure> {
    match strip_paren(e) {
        Expr::Closure(c) => Some(c),
        _ => None,
    }
}

impl<'c> Rw<'c> {
    pub fn new(cx: &'c Cx, key: &str) -> Self {
        Rw { cx, key: key.into(), loops: 0, nclo: 0, lifted: vec![], problems: vec![], auto_spec: None, self_rename: false, self_value: false, fresh: 0 }
    }
    fn problem(&mut self, s: impl Into<String>) {
        self.problems.push(s.into());
    }
    fn id(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        format_ident!("__{}{}", p, self.fresh)
    }

    pub fn signature(&mut self, sig: &mut Signature, block: &mut Block) {
        TypeFix { cx: self.cx }.visit_signature_mut(sig);
        sig.constness = None;
        // fn-pointer parameters become generic
        let mut extra: Vec<GenericParam> = vec![];
        let mut renames: Vec<Stmt> = vec![];
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Typed(t) => {
                    t.attrs.clear();
                    if let Type::BareFn(bf) = &*t.ty {
                        let g = format_ident!("__F{}", extra.len());
                        let ins: Vec<_> = bf.inputs.iter().map(|i| i.ty.clone()).collect();
                        let o = &bf.output;
                        extra.push(parse_quote!(#g: Fn(#(#ins),*) #o));
                        *t.ty = parse_quote!(#g);
                    }
                    if let Pat::Ident(pi) = &mut *t.pat {
                        if pi.mutability.is_some() {
                            pi.mutability = None;
                            let n = &pi.ident;
                            renames.push(parse_quote!(let mut #n = #n;));
                        }
                    } else {
                        // destructuring parameter
                        let n = format_ident!("__p{}", renames.len());
                        let p = t.pat.clone();
                        if let Pat::Reference(r) = &*p {
                            let q = &r.pat;
                            renames.push(parse_quote!(let #q = *#n;));
                        } else {
                            renames.push(parse_quote!(let #p = #n;));
                        }
                        *t.pat = parse_quote!(#n);
                    }
                }
                FnArg::Receiver(r) => {
                    r.attrs.clear();
                    self.self_value = r.reference.is_none() && r.colon_token.is_none();
                    if r.reference.is_none() && r.mutability.is_some() {
                        *r = parse_quote!(self);
                        self.self_rename = true;
                    }
                }
            }
        }
        for e in extra {
            sig.generics.params.push(e);
        }
        if self.self_rename {
            renames.insert(0, parse_quote!(let mut self_ = self;));
            struct V;
            impl VisitMut for V {
                fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                    if p.path.is_ident("self") {
                        p.path = parse_quote!(self_);
                    }
                }
            }
            V.visit_block_mut(block);
        }
        for s in renames.into_iter().rev() {
            block.stmts.insert(0, s);
        }
        // where T: Into<f64>  ->  XInto
        struct W;
        impl VisitMut for W {
            fn visit_trait_bound_mut(&mut self, t: &mut TraitBound) {
                if let Some(s) = t.path.segments.last_mut() {
                    if s.ident == "Into" {
                        s.ident = format_ident!("XInto");
                    }
                }
                visit_mut::visit_trait_bound_mut(self, t);
            }
        }
        W.visit_generics_mut(&mut sig.generics);
        // closures returned by value: converted (see `ret_closure`)
        if let ReturnType::Type(_, t) = &mut sig.output {
            struct R(bool);
            impl VisitMut for R {
                fn visit_type_mut(&mut self, t: &mut Type) {
                    if let Type::ImplTrait(_) = t {
                        self.0 = true;
                        *t = parse_quote!(__Closure);
                    } else {
                        visit_mut::visit_type_mut(self, t);
                    }
                }
            }
            let orig = t.clone();
            let mut r = R(false);
            r.visit_type_mut(t);
            if r.0 {
                self.ret_closure(sig, block, &orig);
            }
        }
    }

    /// `fn bind(self, var) -> Result<impl Fn(A) -> B, E> { ...; Ok(move |x| BODY) }`:
    /// the closure is converted: a struct-free token of type `__C_<key>` holding the captures,
    /// here simply the captured `self`; its body becomes the function `<key>__call`.
    fn ret_closure(&mut self, sig: &mut Signature, block: &mut Block, orig: &Type) {
        // the closure's type: parameters and result
        struct G(Option<(Vec<Type>, ReturnType)>);
        impl<'a> Visit<'a> for G {
            fn visit_parenthesized_generic_arguments(&mut self, p: &'a ParenthesizedGenericArguments) {
                self.0 = Some((p.inputs.iter().cloned().collect(), p.output.clone()));
            }
        }
        let mut g = G(None);
        g.visit_type(orig);
        let Some((ins, outp)) = g.0 else {
            self.problem("impl trait in the return type");
            return;
        };
        // captured: self by value and every parameter
        let mut caps: Vec<(Ident, Type)> = vec![];
        for a in sig.inputs.iter() {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(p) = &*t.pat {
                    caps.push((p.ident.clone(), (*t.ty).clone()));
                }
            }
        }
        let fname = sig.ident.to_string();
        let call = format_ident!("{}__call", fname);
        let mut found = None;
        struct F<'a>(&'a mut Option<ExprClosure>, TokenStream);
        impl VisitMut for F<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Closure(c) = e {
                    if c.capture.is_some() && self.0.is_none() {
                        *self.0 = Some(c.clone());
                        let t = &self.1;
                        *e = parse_quote!(#t);
                        return;
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let capn: Vec<_> = caps.iter().map(|c| c.0.clone()).collect();
        F(&mut found, quote!((self, #(#capn),*))).visit_block_mut(block);
        let Some(c) = found else {
            self.problem("no closure found to convert");
            return;
        };
        // result type: Result<(Self, caps..), E>
        let capt: Vec<_> = caps.iter().map(|c| c.1.clone()).collect();
        if let ReturnType::Type(_, t) = &mut sig.output {
            struct R(Type);
            impl VisitMut for R {
                fn visit_type_mut(&mut self, t: &mut Type) {
                    if t.to_token_stream().to_string() == "__Closure" {
                        *t = self.0.clone();
                    } else {
                        visit_mut::visit_type_mut(self, t);
                    }
                }
            }
            R(parse_quote!((Self, #(#capt),*))).visit_type_mut(t);
        }
        // the body, as a function of `&self`, the captures and the closure's parameters
        let mut params: Vec<FnArg> = vec![];
        for (n, t) in &caps {
            params.push(parse_quote!(#n: #t));
        }
        if c.inputs.len() != ins.len() {
            self.problem("closure arity differs from its type");
            return;
        }
        for (p, t) in c.inputs.iter().zip(&ins) {
            let p = match p {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            params.push(parse_quote!(#p: #t));
        }
        let gens = &sig.generics;
        let mut s2: Signature = parse_quote!(fn #call(&self, #(#params),*) #outp);
        s2.generics = gens.clone();
        let body = &c.body;
        let b2: Block = parse_quote!({ #body });
        let ty = self.key.split("::").next().unwrap().to_string();
        let tyi = format_ident!("{}", ty);
        let hdr = quote!(impl<'a> #tyi<'a>);
        let key = format!("{}__call", self.key);
        self.lifted.push((Some(hdr), s2, b2, key));
    }

    fn lift_closure(&mut self, c: &ExprClosure, kind: &str) -> Expr {
        // non capturing closure passed as a value: becomes a named function
        let k = self.nclo;
        self.nclo += 1;
        let base = self.key.replace("::", "_");
        let name = format_ident!("__clo_{}_{}", base, k);
        let key = name.to_string();
        let mut params: Vec<FnArg> = vec![];
        let (ptype, rtype): (Type, Type) = match kind {
            "builtin" => (parse_quote!(&[f64]), parse_quote!(f64)),
            _ => (parse_quote!(&u8), parse_quote!(bool)),
        };
        let mut lets: Vec<Stmt> = vec![];
        let mut names: Vec<Ident> = vec![];
        for (i, p) in c.inputs.iter().enumerate() {
            let n = format_ident!("__p{}", i);
            match p {
                Pat::Ident(pi) => {
                    let q = &pi.ident;
                    params.push(parse_quote!(#q: #ptype));
                    names.push(q.clone());
                }
                Pat::Reference(r) => {
                    let q = &r.pat;
                    params.push(parse_quote!(#n: #ptype));
                    lets.push(parse_quote!(let #q = *#n;));
                    names.push(n);
                }
                _ => {
                    params.push(parse_quote!(#n: #ptype));
                    names.push(n);
                }
            }
        }
        let body = &c.body;
        let sig: Signature = parse_quote!(fn #name(#(#params),*) -> #rtype);
        let blk: Block = parse_quote!({ #(#lets)* #body });
        self.lifted.push((None, sig, blk, key));
        parse_quote!(#name)
    }

    fn fn_apply(&mut self, f: &Expr, x: Expr) -> Expr {
        // apply a closure or a path to an expression
        if let Some(c) = closure(f) {
            let body = &c.body;
            if escapes(body) {
                self.problem("`?` or `return` inside a closure");
            }
            match c.inputs.len() {
                0 => return parse_quote!(#body),
                _ => {
                    let p = match &c.inputs[0] {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    if let Pat::Reference(r) = &p {
                        let q = &r.pat;
                        return parse_quote!({ let #q = *#x; #body });
                    }
                    return parse_quote!({ let #p = #x; #body });
                }
            }
        }
        let s = f.to_token_stream().to_string().replace(' ', "");
        if s == "Into::into" || s == "xinto" {
            return parse_quote!((#x).xinto());
        }
        parse_quote!(#f(#x))
    }

    fn new_loop(&mut self) -> Stmt {
        let k = self.loops;
        self.loops += 1;
        let l = proc_macro2::Literal::usize_unsuffixed(k);
        parse_quote!(__loop__!(#l);)
    }

    /// iterator chains, recognised before their parts are visited
    fn chain(&mut self, e: &Expr) -> Option<Expr> {
        // X.iter().map(f).collect::<..>()?   |  X.iter().map(f).collect()  |  X.into_iter()...  | X.iter().for_each(f) | X.iter().fold(i, f)
        let (mc, tried) = match e {
            Expr::Try(t) => match strip_paren(&t.expr) {
                Expr::MethodCall(m) => (m.clone(), true),
                _ => return None,
            },
            Expr::MethodCall(m) => (m.clone(), false),
            _ => return None,
        };
        let last = mc.method.to_string();
        fn base(e: &Expr) -> Option<(Expr, bool)> {
            // (collection, by value)
            match strip_paren(e) {
                Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter" => Some(((*m.receiver).clone(), false)),
                Expr::MethodCall(m) if m.args.is_empty() && m.method == "into_iter" => Some(((*m.receiver).clone(), true)),
                _ => None,
            }
        }
        let mut turbofish = String::new();
        if let Some(t) = &mc.turbofish {
            turbofish = t.to_token_stream().to_string().replace(' ', "");
        }
        if last == "collect" {
            let Expr::MethodCall(map) = strip_paren(&mc.receiver) else { return None };
            if map.method != "map" {
                return None;
            }
            let (coll, by_value) = base(&map.receiver)?;
            let f = map.args[0].clone();
            let is_result = turbofish.contains("Result<");
            if tried != is_result {
                return None;
            }
            // sets cannot be indexed: `expected.iter().map(..)` is left to the shims
            if !by_value && turbofish.is_empty() {
                return None;
            }
            let body_apply = |s: &mut Self, x: Expr| s.fn_apply(&f, x);
            if by_value {
                let x = self.id("x");
                let app = body_apply(self, parse_quote!(#x));
                let lp = self.new_loop();
                let push: Expr = if is_result { parse_quote!((#app)?) } else { app };
                return Some(parse_quote!({
                    let mut __it = xinto_iter(#coll);
                    let mut __acc = Vec::new();
                    while let Some(#x) = __it.next() {
                        #lp
                        __acc.push(#push);
                    }
                    __acc
                }));
            }
            let x = self.id("x");
            let app = body_apply(self, parse_quote!(#x));
            let lp = self.new_loop();
            let push: Expr = if is_result { parse_quote!((#app)?) } else { app };
            return Some(parse_quote!({
                let __v = xas_slice(&#coll);
                let mut __acc = Vec::new();
                let mut __i: usize = 0;
                while __i < __v.len() {
                    #lp
                    let #x = &__v[__i];
                    __i += 1;
                    __acc.push(#push);
                }
                __acc
            }));
        }
        if last == "for_each" && !tried {
            let (coll, by_value) = base(&mc.receiver)?;
            if by_value {
                return None;
            }
            let x = self.id("x");
            let f = mc.args[0].clone();
            let app = self.fn_apply(&f, parse_quote!(#x));
            let lp = self.new_loop();
            return Some(parse_quote!({
                let __v = xas_slice(&#coll);
                let mut __i: usize = 0;
                while __i < __v.len() {
                    #lp
                    let #x = &__v[__i];
                    __i += 1;
                    #app;
                }
            }));
        }
        if last == "fold" && !tried && mc.args.len() == 2 {
            let (coll, by_value) = base(&mc.receiver)?;
            if by_value {
                return None;
            }
            let init = mc.args[0].clone();
            let c = closure(&mc.args[1])?.clone();
            let acc = match &c.inputs[0] {
                Pat::Ident(p) => p.ident.clone(),
                _ => return None,
            };
            let x = self.id("x");
            let body = &c.body;
            let bind: Stmt = match &c.inputs[1] {
                Pat::Reference(r) => {
                    let q = &r.pat;
                    parse_quote!(let #q = *#x;)
                }
                q => parse_quote!(let #q = #x;),
            };
            let lp = self.new_loop();
            return Some(parse_quote!({
                let __v = xas_slice(&#coll);
                let mut __acc = #init;
                let mut __i: usize = 0;
                while __i < __v.len() {
                    #lp
                    let #x = &__v[__i];
                    __i += 1;
                    #bind
                    __acc = { let #acc = __acc; #body };
                }
                __acc
            }));
        }
        if last == "sum" && !tried {
            let (coll, _) = base(&mc.receiver)?;
            return Some(parse_quote!(xsum(xas_slice(&#coll))));
        }
        None
    }

    /// whether an expression is a Result, as far as its form tells
    fn is_result(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "map_err" | "ok_or" | "ok_or_else" => true,
                    "map" | "and_then" | "or_else" => self.is_result(&m.receiver),
                    "parse" if m.args.is_empty() => true,
                    "as_ref" => self.is_result(&m.receiver),
                    _ => self.cx.results.contains(&n),
                }
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    n == "Ok" || n == "Err" || self.cx.results.contains(&n)
                }
                _ => false,
            },
            _ => false,
        }
    }
    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let r = &m.receiver;
        let name = m.method.to_string();
        let a: Vec<Expr> = m.args.iter().cloned().collect();
        let k = (name.as_str(), a.len());
        let res = self.is_result(r);
        Some(match k {
            ("map", 1) if res => {
                let ap = self.fn_apply(&a[0], parse_quote!(__s));
                parse_quote!((match #r { Ok(__s) => Ok(#ap), Err(__e) => Err(__e) }))
            }
            ("and_then", 1) if res => {
                let ap = self.fn_apply(&a[0], parse_quote!(__s));
                parse_quote!((match #r { Ok(__s) => #ap, Err(__e) => Err(__e) }))
            }
            ("or_else", 1) if res => {
                let ap = self.fn_apply(&a[0], parse_quote!(__e));
                parse_quote!((match #r { Ok(__ok) => Ok(__ok), Err(__e) => #ap }))
            }
            ("map_or", 2) if res => {
                let d = &a[0];
                let ap = self.fn_apply(&a[1], parse_quote!(__s));
                parse_quote!((match (#r, #d) { (Ok(__s), _) => #ap, (Err(_), __d) => __d }))
            }
            ("map_or_else", 2) if res => {
                let bad = self.fn_apply(&a[0], parse_quote!(__e));
                let ap = self.fn_apply(&a[1], parse_quote!(__s));
                parse_quote!((match #r { Ok(__s) => #ap, Err(__e) => #bad }))
            }
            ("unwrap_or", 1) if res => {
                let d = &a[0];
                parse_quote!((match (#r, #d) { (Ok(__s), _) => __s, (Err(_), __d) => __d }))
            }
            ("unwrap_or_else", 1) if res => {
                let bad = self.fn_apply(&a[0], parse_quote!(__e));
                parse_quote!((match #r { Ok(__s) => __s, Err(__e) => #bad }))
            }
            ("map_err", 1) => {
                let ap = self.fn_apply(&a[0], parse_quote!(__e));
                parse_quote!((match #r { Ok(__ok) => Ok(__ok), Err(__e) => Err(#ap) }))
            }
            ("ok_or_else", 1) => {
                let c = closure(&a[0])?;
                let b = &c.body;
                parse_quote!((match #r { Some(__s) => Ok(__s), None => Err(#b) }))
            }
            ("ok_or", 1) => {
                let b = &a[0];
                parse_quote!((match (#r, #b) { (Some(__s), _) => Ok(__s), (None, __e) => Err(__e) }))
            }
            ("map_or_else", 2) => {
                let c = closure(&a[0])?.clone();
                let b = &c.body;
                let ap = self.fn_apply(&a[1], parse_quote!(__s));
                parse_quote!((match #r { Some(__s) => #ap, None => #b }))
            }
            ("map_or", 2) => {
                let d = &a[0];
                let ap = self.fn_apply(&a[1], parse_quote!(__s));
                parse_quote!((match (#r, #d) { (Some(__s), _) => #ap, (None, __d) => __d }))
            }
            ("is_some_and", 1) => {
                let ap = self.fn_apply(&a[0], parse_quote!(__s));
                parse_quote!((match #r { Some(__s) => #ap, None => false }))
            }
            ("is_none_or", 1) => {
                let ap = self.fn_apply(&a[0], parse_quote!(__s));
                parse_quote!((match #r { Some(__s) => #ap, None => true }))
            }
            ("and_then", 1) => {
                let ap = self.fn_apply(&a[0], parse_quote!(__s));
                parse_quote!((match #r { Some(__s) => #ap, None => None }))
            }
            ("map", 1) if closure(&a[0]).is_some() => {
                let ap = self.fn_apply(&a[0], parse_quote!(__s));
                parse_quote!((match #r { Some(__s) => Some(#ap), None => None }))
            }
            ("filter", 1) if closure(&a[0]).is_some() => {
                let ap = self.fn_apply(&a[0], parse_quote!(&__s));
                parse_quote!((match #r { Some(__s) => if #ap { Some(__s) } else { None }, None => None }))
            }
            ("unwrap_or", 1) => {
                let d = &a[0];
                parse_quote!((match (#r, #d) { (Some(__s), _) => __s, (None, __d) => __d }))
            }
            ("unwrap_or_else", 1) => {
                let c = closure(&a[0])?;
                let b = &c.body;
                if !c.inputs.is_empty() {
                    return None;
                }
                parse_quote!((match #r { Some(__s) => __s, None => #b }))
            }
            ("or_else", 1) => {
                let c = closure(&a[0])?;
                let b = &c.body;
                parse_quote!((match #r { Some(__s) => Some(__s), None => #b }))
            }
            ("ok", 0) => parse_quote!((match #r { Ok(__s) => Some(__s), Err(_) => None })),
            ("then_some", 1) => {
                let d = &a[0];
                parse_quote!((match (#r, #d) { (true, __s) => Some(__s), (false, _) => None }))
            }
            ("then", 1) => {
                let c = closure(&a[0])?;
                let b = &c.body;
                parse_quote!((if #r { Some(#b) } else { None }))
            }
            ("as_display", 0) => parse_quote!((#r)),
            ("fmt", 1) => {
                let d = &a[0];
                parse_quote!((#r).xfmt(#d))
            }
            ("take", 0) => parse_quote!(core::mem::replace(&mut #r, None)),
            ("replace", 1) => {
                let d = &a[0];
                parse_quote!(core::mem::replace(&mut #r, Some(#d)))
            }
            ("get", 1) => {
                if let Expr::Range(rg) = strip_paren(&a[0]) {
                    if let (Some(s), None) = (&rg.start, &rg.end) {
                        return Some(parse_quote!(xget_from(#r, #s)));
                    }
                }
                return None;
            }
            _ => {
                let nn = match k {
                    ("into", 0) => "xinto",
                    ("cloned", 0) => "xcloned",
                    ("clone", 0) => "xclone",
                    ("len", 0) => "xlen",
                    ("to_owned", 0) => "xto_owned",
                    ("to_string", 0) => "xto_string",
                    ("as_bytes", 0) => "xas_bytes",
                    ("replace", 2) => "xreplace",
                    ("parse", 0) => "xparse",
                    ("cmp", 1) => "xcmp",
                    ("is_empty", 0) => "xis_empty",
                    ("starts_with", 1) => "xstarts_with",
                    ("ends_with", 1) => "xends_with",
                    ("eq_ignore_ascii_case", 1) => "xeq_ignore_ascii_case",
                    ("trim", 0) => "xtrim",
                    ("trim_start", 0) => "xtrim_start",
                    ("trim_end", 0) => "xtrim_end",
                    ("trim_matches", 1) => "xtrim_matches",
                    ("trim_start_matches", 1) => "xtrim_start_matches",
                    ("trim_end_matches", 1) => "xtrim_end_matches",
                    ("to_lowercase", 0) => "xto_lowercase",
                    ("to_uppercase", 0) => "xto_uppercase",
                    ("push_str", 1) => "xpush_str",
                    ("chars", 0) => "xchars",
                    ("iter", 0) => "xiter",
                    ("into_iter", 0) => "xinto_iter",
                    ("copied", 0) => "xcopied",
                    ("join", 1) => "xjoin",
                    ("sort_unstable" | "sort", 0) => "xsort",
                    ("saturating_sub", 1) => "saturating_sub",
                    _ => return None,
                };
                let n = format_ident!("{}", nn);
                let mut m = m.clone();
                m.method = n;
                if matches!(k.0, "into" | "parse") {
                    m.turbofish = None;
                }
                Expr::MethodCall(m)
            }
        })
    }

    fn arms(&mut self, m: &mut ExprMatch) {
        for a in m.arms.iter_mut() {
            a.attrs.clear();
            let mut found = vec![];
            let mut n = self.fresh;
            boxes(&mut a.pat, &mut n, &mut found);
            self.fresh = n;
            for (id, q) in found.iter().rev() {
                let body = &a.body;
                let guard: Expr = match &a.guard {
                    Some((_, g)) => (**g).clone(),
                    None => parse_quote!(true),
                };
                a.guard = Some((parse_quote!(if), parse_quote!((match &*#id { #q => #guard, _ => false }))));
                a.body = parse_quote!((match *#id { #q => #body, _ => vpanic() }));
            }
            if a.comma.is_none() {
                a.comma = Some(parse_quote!(,));
            }
        }
    }
    fn format(&mut self, ts: TokenStream) -> Option<(String, Vec<Expr>)> {
        // format_args!("..{0}..", a, b)
        let p = syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, ts).ok()?;
        let mut it = p.into_iter();
        let f = match it.next()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        Some((f, it.collect()))
    }
    /// pieces of a format string with only `{n}` holes
    fn pieces(f: &str) -> Option<Vec<std::result::Result<String, usize>>> {
        let mut v = vec![];
        let mut lit = String::new();
        let c: Vec<char> = f.chars().collect();
        let mut i = 0;
        while i < c.len() {
            if c[i] == '{' && c.get(i + 1) == Some(&'{') {
                lit.push('{');
                i += 2;
            } else if c[i] == '}' && c.get(i + 1) == Some(&'}') {
                lit.push('}');
                i += 2;
            } else if c[i] == '{' {
                let j = (i..c.len()).find(|&j| c[j] == '}')?;
                let n: String = c[i + 1..j].iter().collect();
                if !lit.is_empty() {
                    v.push(Ok(std::mem::take(&mut lit)));
                }
                v.push(Err(n.parse().ok()?));
                i = j + 1;
            } else {
                lit.push(c[i]);
                i += 1;
            }
        }
        if !lit.is_empty() {
            v.push(Ok(lit));
        }
        Some(v)
    }
}

impl VisitMut for Rw<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        path_fix(self.cx, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        TypeFix { cx: self.cx }.visit_type_mut(t);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // `use` statements of crate modules are flattened away; enum imports stay
        let mut keep = vec![];
        for s in b.stmts.drain(..) {
            if let Stmt::Item(Item::Use(u)) = &s {
                let t = u.to_token_stream().to_string().replace(' ', "");
                let first = t.trim_start_matches("use").split("::").next().unwrap_or("").to_string();
                if self.cx.mods.contains(&first) || first == "crate" || first == "super" || first == "thiserror" {
                    continue;
                }
            }
            keep.push(s);
        }
        b.stmts = keep;
        visit_mut::visit_block_mut(self, b);
        // `{ el = ..; };` and friends are fine
        for s in b.stmts.iter_mut() {
            if let Stmt::Expr(Expr::Block(bl), semi) = s {
                if semi.is_some() && bl.label.is_none() {
                    *semi = None;
                }
            }
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(_) = s {
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        // `let x: T = ...collect()` is `...collect::<T>()`
        if let (Pat::Type(t), Some(i)) = (&l.pat, &mut l.init) {
            if let Expr::MethodCall(m) = &mut *i.expr {
                if m.method == "collect" && m.turbofish.is_none() {
                    let ty = &t.ty;
                    m.turbofish = Some(parse_quote!(::<#ty>));
                }
            }
        }
        if pat_has_ref(&l.pat) {
            if let Some(i) = &mut l.init {
                i.expr = Box::new(copied(&i.expr, &[&l.pat]));
            }
            pat_strip_ref(&mut l.pat);
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        // paths in patterns
        if let Pat::Verbatim(_) = p {
            return;
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // attributes on expressions
        match e {
            Expr::Match(m) => m.attrs.clear(),
            Expr::Closure(c) => c.attrs.clear(),
            Expr::Call(c) => c.attrs.clear(),
            Expr::MethodCall(c) => c.attrs.clear(),
            Expr::Paren(c) => c.attrs.clear(),
            _ => {}
        }
        // ---- forms recognised top-down
        if let Some(n) = self.chain(e) {
            *e = n;
            // the new loop markers are statements: visit the rest normally
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        match e {
            Expr::Match(m) => {
                ergonomic(m);
                let pats: Vec<&Pat> = m.arms.iter().map(|a| &a.pat).collect();
                if pats.iter().any(|p| has_str_lit(p)) {
                    // string match -> if chain
                    let s = &m.expr;
                    let v = self.id("m");
                    let mut chain: Option<Expr> = None;
                    for a in m.arms.iter().rev() {
                        let body = &a.body;
                        if a.guard.is_some() {
                            self.problem("guard in a match on strings");
                        }
                        if let Some(ls) = str_lits(&a.pat) {
                            let c: Vec<Expr> = ls.iter().map(|l| parse_quote!(xstr_eq(#v, #l))).collect();
                            let mut cond = c[0].clone();
                            for d in &c[1..] {
                                cond = parse_quote!(#cond || #d);
                            }
                            chain = Some(match chain {
                                Some(Expr::If(i)) => parse_quote!(if #cond { #body } else #i),
                                Some(x) => parse_quote!(if #cond { #body } else { #x }),
                                None => parse_quote!(if #cond { #body } else { vpanic() }),
                            });
                        } else if let Pat::Wild(_) = &a.pat {
                            chain = Some(parse_quote!({ #body }));
                        } else {
                            let p = &a.pat;
                            chain = Some(parse_quote!({ let #p = #v; #body }));
                        }
                    }
                    let chain = chain.unwrap();
                    *e = parse_quote!({ let #v = #s; #chain });
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
                if is_copy_ref_scrutinee(&pats) {
                    m.expr = Box::new(copied(&m.expr, &pats));
                    for a in m.arms.iter_mut() {
                        pat_strip_ref(&mut a.pat);
                    }
                    if m.arms.iter().any(|a| a.guard.is_some()) && !m.arms.iter().any(|a| has_loop_or_closure(&a.body)) {
                        // a guard decides inside its arm; a copied value can be matched again
                        let v = self.id("m");
                        let s = &m.expr;
                        let arms = unguard(&v, &m.arms);
                        *e = parse_quote!({ let #v = #s; match #v { #(#arms)* } });
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
                // `A | B if g => e` becomes `A if g => e, B if g => e`
                if m.arms.iter().any(|a| a.guard.is_some() && matches!(a.pat, Pat::Or(_)) && !has_loop_or_closure(&a.body)) {
                    m.arms = m
                        .arms
                        .iter()
                        .flat_map(|a| match &a.pat {
                            Pat::Or(o) if a.guard.is_some() && !has_loop_or_closure(&a.body) => o
                                .cases
                                .iter()
                                .map(|c| Arm { pat: c.clone(), comma: Some(parse_quote!(,)), ..a.clone() })
                                .collect::<Vec<_>>(),
                            _ => vec![a.clone()],
                        })
                        .collect();
                }
                self.arms(m);
            }
            Expr::Let(l) => {
                if pat_has_ref(&l.pat) {
                    l.expr = Box::new(copied(&l.expr, &[&l.pat]));
                    pat_strip_ref(&mut l.pat);
                }
            }
            Expr::ForLoop(f) => {
                // for PAT in &X / X (slices only)
                let lp = self.new_loop();
                let coll = &f.expr;
                let owned: Option<Expr> = match strip_paren(coll) {
                    Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => Some((*m.receiver).clone()),
                    Expr::Field(fl) if self.self_value && matches!(&*fl.base, Expr::Path(p) if p.path.is_ident("self") || p.path.is_ident("self_")) => Some((**coll).clone()),
                    _ => None,
                };
                if let Some(coll) = owned {
                    let (pat, body) = (&f.pat, &f.body.stmts);
                    *e = parse_quote!({
                        let mut __it = xinto_iter(#coll);
                        while let Some(#pat) = __it.next() {
                            #lp
                            #(#body)*
                        }
                    });
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
                // `a..b`: where it counts through a collection, the collection is named
                if let Expr::Range(ExprRange { start: Some(from), end: Some(to), limits: RangeLimits::HalfOpen(_), .. }) = strip_paren(coll) {
                    let (pat, body) = (&f.pat, &f.body.stmts);
                    let zero = matches!(strip_paren(from), Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) if n.base10_digits() == "0");
                    *e = match strip_paren(to) {
                        Expr::MethodCall(m) if zero && m.method == "len" && m.args.is_empty() => {
                            let r = &m.receiver;
                            parse_quote!({
                                let __v = xas_slice(&#r);
                                let mut __i: usize = 0;
                                while __i < __v.len() {
                                    #lp
                                    let #pat = __i;
                                    __i += 1;
                                    #(#body)*
                                }
                            })
                        }
                        _ => parse_quote!({
                            let __n = #to;
                            let mut __i = #from;
                            while __i < __n {
                                #lp
                                let #pat = __i;
                                __i += 1;
                                #(#body)*
                            }
                        }),
                    };
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
                // `X.iter().enumerate()`, `X.iter().copied()`
                let mut by_copy = false;
                let mut inner = strip_paren(coll).clone();
                let mut pat = (*f.pat).clone();
                let mut index: Option<Pat> = None;
                if let Expr::MethodCall(m) = inner.clone() {
                    if m.args.is_empty() && m.method == "enumerate" {
                        if let Pat::Tuple(t) = &pat {
                            if t.elems.len() == 2 {
                                index = Some(t.elems[0].clone());
                                let second = t.elems[1].clone();
                                pat = second;
                                inner = strip_paren(&m.receiver).clone();
                            }
                        }
                    }
                }
                if let Expr::MethodCall(m) = inner.clone() {
                    if m.args.is_empty() && (m.method == "copied") && matches!(strip_paren(&m.receiver), Expr::MethodCall(r) if r.method == "iter") {
                        by_copy = true;
                        inner = strip_paren(&m.receiver).clone();
                    }
                }
                let coll = &inner;
                let x = self.id("x");
                let bind: Stmt = match &pat {
                    q if by_copy => parse_quote!(let #q = *#x;),
                    Pat::Reference(r) => {
                        let q = &r.pat;
                        parse_quote!(let #q = *#x;)
                    }
                    q => parse_quote!(let #q = #x;),
                };
                let count: Option<Stmt> = index.map(|q| parse_quote!(let #q = __i;));
                let body = &f.body.stmts;
                let coll: Expr = match strip_paren(coll) {
                    Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                        let r = &m.receiver;
                        parse_quote!(xas_slice(&#r))
                    }
                    Expr::Reference(r) if r.mutability.is_none() => {
                        let r = &r.expr;
                        parse_quote!(xas_slice(&#r))
                    }
                    c => parse_quote!(xas_slice(&#c)),
                };
                *e = parse_quote!({
                    let __v = #coll;
                    let mut __i: usize = 0;
                    while __i < __v.len() {
                        #lp
                        let #x = &__v[__i];
                        #count
                        __i += 1;
                        #bind
                        #(#body)*
                    }
                });
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::While(w) => {
                let has = matches!(w.body.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__loop__"));
                if !has {
                    let lp = self.new_loop();
                    w.body.stmts.insert(0, lp);
                }
            }
            Expr::Loop(w) => {
                let lp = self.new_loop();
                w.body.stmts.insert(0, lp);
            }
            Expr::Macro(_) => return,
            _ => {}
        }
        // ---- `fmt.write_fmt(format_args!(..))` and `format(format_args!(..))`
        if let Expr::MethodCall(m) = e {
            if m.method == "write_fmt" && m.args.len() == 1 {
                if let Expr::Macro(mac) = strip_paren(&m.args[0]) {
                    if let Some((f, mut args)) = self.format(mac.mac.tokens.clone()) {
                        if let Some(ps) = Self::pieces(&f) {
                            for a in args.iter_mut() {
                                self.visit_expr_mut(a);
                            }
                            let w = &m.receiver;
                            let mut st: Vec<Stmt> = vec![];
                            let n = ps.len();
                            for (i, p) in ps.iter().enumerate() {
                                let call: Expr = match p {
                                    Ok(l) => parse_quote!(#w.write_str(#l)),
                                    Err(k) => {
                                        let Some(a) = args.get(*k) else { return };
                                        parse_quote!((#a).xfmt(#w))
                                    }
                                };
                                if i + 1 == n {
                                    st.push(Stmt::Expr(call, None));
                                } else {
                                    st.push(parse_quote!(#call?;));
                                }
                            }
                            if st.is_empty() {
                                st.push(Stmt::Expr(parse_quote!(Ok(())), None));
                            }
                            *e = parse_quote!({ #(#st)* });
                            return;
                        }
                    }
                    self.problem("format string");
                }
            }
        }
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            // `vec![..]`
            if f == "<[_]>::into_vec" && c.args.len() == 1 {
                if let Expr::Call(b) = strip_paren(&c.args[0]) {
                    if b.args.len() == 1 && matches!(b.args[0], Expr::Array(_)) {
                        *e = b.args[0].clone();
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            if f.ends_with("__export::must_use") {
                // must_use({ let res = fmt::format(format_args!(..)); res })
                struct M(Option<TokenStream>);
                impl<'a> Visit<'a> for M {
                    fn visit_macro(&mut self, m: &'a Macro) {
                        if m.path.segments.last().unwrap().ident == "format_args" {
                            self.0 = Some(m.tokens.clone());
                        }
                    }
                }
                let mut v = M(None);
                v.visit_expr_call(c);
                if let Some(ts) = v.0 {
                    if let Some((f, mut args)) = self.format(ts) {
                        if let Some(ps) = Self::pieces(&f) {
                            for a in args.iter_mut() {
                                self.visit_expr_mut(a);
                            }
                            let mut st: Vec<Stmt> = vec![parse_quote!(let mut __s = xstring_new();)];
                            for p in ps {
                                match p {
                                    Ok(l) => st.push(parse_quote!(xwrite_str(&mut __s, #l);)),
                                    Err(k) => {
                                        let a = &args[k];
                                        st.push(parse_quote!((#a).xwrite(&mut __s);));
                                    }
                                }
                            }
                            st.push(Stmt::Expr(parse_quote!(__s), None));
                            *e = parse_quote!({ #(#st)* });
                            return;
                        }
                    }
                }
                self.problem("format!");
            }
        }
        // ---- method calls taking closures are rewritten before their closures are visited
        if let Expr::MethodCall(m) = e {
            if let Some(n) = self.method(m) {
                *e = n;
                visit_mut::visit_expr_mut(self, e);
                return;
            }
        }
        // ---- closures as plain arguments
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            let kind = if f.ends_with("new_static") || f.ends_with("new_dyn") { "builtin" } else { "pred" };
            let args: Vec<Expr> = c.args.iter().cloned().collect();
            for (i, a) in args.iter().enumerate() {
                if let Some(cl) = closure(a) {
                    c.args[i] = self.lift_closure(&cl.clone(), kind);
                }
            }
        }
        if let Expr::MethodCall(c) = e {
            let args: Vec<Expr> = c.args.iter().cloned().collect();
            for (i, a) in args.iter().enumerate() {
                if let Some(cl) = closure(a) {
                    c.args[i] = self.lift_closure(&cl.clone(), "pred");
                }
            }
        }
        // constructs with `name = closure`
        visit_mut::visit_expr_mut(self, e);
        // ---- bottom-up forms
        match e {
            Expr::Binary(b) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::Eq(_) => *e = parse_quote!((#l).xeq(&(#r))),
                    BinOp::Ne(_) => *e = parse_quote!((!(#l).xeq(&(#r)))),
                    BinOp::Rem(_) => *e = parse_quote!((#l).xrem(#r)),
                    _ => {}
                }
            }
            Expr::Cast(c) => {
                if c.ty.to_token_stream().to_string() == "f64" {
                    let x = &c.expr;
                    *e = parse_quote!(xas_f64(#x));
                }
            }
            Expr::Unary(u) => {
                if let UnOp::Neg(_) = u.op {
                    let x = &u.expr;
                    *e = parse_quote!((#x).xneg());
                }
            }
            Expr::Reference(r) => {
                if let Expr::Index(ix) = strip_paren(&r.expr) {
                    if let Expr::Range(rg) = strip_paren(&ix.index) {
                        let x = &ix.expr;
                        if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                            *e = parse_quote!(xsubslice(#x, #a, #b));
                        } else if let (Some(a), None) = (&rg.start, &rg.end) {
                            *e = parse_quote!(xslice_from(#x, #a));
                        }
                    }
                }
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                let g = f.trim_start_matches("::");
                if g.contains("panicking::") || g.ends_with("intrinsics::unreachable") || g.ends_with("unreachable_unchecked") {
                    *e = parse_quote!(vpanic());
                } else if g.ends_with("Default::default") && c.args.is_empty() {
                    *e = parse_quote!(XDefault::xdefault());
                } else if g.ends_with("Display::fmt") && c.args.len() == 2 {
                    let (a, w) = (&c.args[0], &c.args[1]);
                    *e = parse_quote!((#a).xfmt(#w));
                } else if g.ends_with("Clone::clone") && c.args.len() == 1 {
                    let a = &c.args[0];
                    *e = parse_quote!((#a).xclone());
                } else if g.ends_with("intrinsics::discriminant_value") {
                    let a = &c.args[0];
                    *e = parse_quote!((#a).xdiscr());
                } else if matches!(g, "usize::from" | "u8::from" | "char::from" | "f64::from" | "u64::from" | "u32::from" | "Element::from" | "Identifier::from" | "Symbol::from") {
                    let t: Type = parse_str(g.split("::").next().unwrap()).unwrap();
                    let a = &c.args[0];
                    *e = parse_quote!(XInto::<#t>::xinto(#a));
                } else if matches!(g, "String::new") {
                    *e = parse_quote!(xstring_new());
                } else if g == "String::from" {
                    let a = &c.args[0];
                    *e = parse_quote!((#a).xto_owned());
                } else if matches!(strip_paren(&c.func), Expr::Field(_)) {
                    let (f, a) = (&c.func, &c.args);
                    *e = parse_quote!(#f.xcall(#a));
                }
            }
            Expr::Path(p) => {
                let s = p.path.to_token_stream().to_string().replace(' ', "");
                if p.path.segments.len() == 1 {
                    if self.cx.consts.contains(&s) {
                        *e = parse_quote!(#p());
                    } else if matches!(s.as_str(), "xnan" | "xinf" | "xneginf" | "xpi" | "xe") {
                        *e = parse_quote!(#p());
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        // do not turn a called path into a constant call
        if let Expr::Path(p) = &mut *c.func {
            self.visit_path_mut(&mut p.path);
        } else if matches!(strip_paren(&c.func), Expr::Field(_)) {
            // a call through the function pointer held in a field
            self.visit_expr_mut(&mut c.func);
        } else {
            self.visit_expr_mut(&mut c.func);
        }
        for a in c.args.iter_mut() {
            self.visit_expr_mut(a);
        }
    }
}
