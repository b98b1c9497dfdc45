//! Mechanical extraction: rustc's own expansion of the crate -> text that Verus accepts.
//! usage: extract EXPANDED.rs CONTRACTS OUT.rs FLAG...
mod contracts;
mod inline;
mod printer;
mod rewrite;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Out {
    pub items: Vec<(String, String)>, // (kind or key, text)
    pub dropped: Vec<String>,
    pub used: BTreeSet<String>,
    pub fns: Vec<(String, bool, usize)>, // key, has contract, number of loops
    pub problems: Vec<String>,
    pub renamed: Vec<String>,
}

const DROP_TRAITS: &[&str] = &[
    "Debug", "PartialOrd", "Ord", "Eq", "Hash", "StructuralPartialEq", "Error", "Copy",
    "Deref", "TrivialClone",
];
const SHIMMED: &[&str] = &["FnPointer", "DynFn"];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).unwrap();
    let cts = contracts::load(&a[2], &a[4..]);
    let mut file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("EXTRACT-FAIL parse: {e}");
            std::process::exit(3);
        }
    };
    let mut out = Out { items: vec![], dropped: vec![], used: BTreeSet::new(), fns: vec![], problems: vec![], renamed: vec![] };
    for g in inline::file(&mut file, &|k| cts.contains_key(k)) {
        out.dropped.push(format!("{g} (no contract of its own: put in the place of its uses)"));
    }
    let mut mods = BTreeSet::new();
    let mut consts = BTreeSet::new();
    let mut copies = BTreeSet::new();
    collect(&file.items, &mut mods, &mut consts, &mut copies);
    let mut boxed = BTreeSet::new();
    collect_boxed(&file.items, &mut boxed);
    let mut kinds: BTreeMap<String, (bool, bool)> = BTreeMap::new();
    collect_results(&file.items, &mut kinds);
    let results = kinds.into_iter().filter(|(_, (r, o))| *r && !*o).map(|(n, _)| n).collect();
    let cx = rewrite::Cx { mods, consts, copies: copies.clone(), boxed, results, flags: a[4..].to_vec() };
    items(&file.items, &cx, &cts, &copies, &mut out, "");
    // types at the root, functions in the module of their group
    let mut text = String::new();
    for (k, t) in out.items.iter().filter(|(k, _)| k.starts_with("type ")) {
        text.push_str(&format!("//@@ {k}\n{t}\n"));
    }
    let groups: BTreeSet<String> = out.items.iter().filter_map(|(k, _)| k.split(" group=").nth(1).map(|s| s.to_string())).collect();
    for g in &groups {
        text.push_str(&format!("//@@ -module {g}\npub mod g_{g} {{\nuse super::*;\n"));
        for (k, t) in &out.items {
            if k.split(" group=").nth(1) == Some(g.as_str()) {
                text.push_str(&format!("//@@ {k}\n{t}\n"));
            }
        }
        text.push_str(&format!("//@@ -end module\n}}\npub use g_{g}::*;\n"));
    }
    text.push_str("//@@ -end\n");
    std::fs::write(&a[3], text).unwrap();
    let mut rep = String::new();
    for d in &out.dropped {
        rep.push_str(&format!("DROPPED {d}\n"));
    }
    for (k, h, n) in &out.fns {
        rep.push_str(&format!("FN {k} contract={h} loops={n}\n"));
    }
    for p in &out.renamed {
        rep.push_str(&format!("RENAMED {p}\n"));
    }
    for p in &out.problems {
        rep.push_str(&format!("PROBLEM {p}\n"));
    }
    for (k, c) in cts.iter() {
        if !out.used.contains(k) {
            rep.push_str(&format!("UNUSED {k} group={}\n", c.group));
        }
    }
    print!("{rep}");
}

fn collect(its: &[Item], mods: &mut BTreeSet<String>, consts: &mut BTreeSet<String>, copies: &mut BTreeSet<String>) {
    for it in its {
        match it {
            Item::Mod(m) => {
                mods.insert(m.ident.to_string());
                if let Some((_, c)) = &m.content {
                    collect(c, mods, consts, copies);
                }
            }
            Item::Const(c) => {
                consts.insert(c.ident.to_string());
            }
            Item::Impl(i) => {
                if let Some((_, p, _)) = &i.trait_ {
                    if p.segments.last().unwrap().ident == "Copy" {
                        copies.insert(type_name(&i.self_ty));
                    }
                }
            }
            _ => {}
        }
    }
}

/// names of functions: (some return a Result, some do not)
fn collect_results(its: &[Item], kinds: &mut BTreeMap<String, (bool, bool)>) {
    let mut add = |s: &Signature| {
        let k = kinds.entry(s.ident.to_string()).or_default();
        match &s.output {
            ReturnType::Type(_, t) if type_name(t) == "Result" && !quote!(#t).to_string().contains("fmt") => k.0 = true,
            _ => k.1 = true,
        }
    };
    for it in its {
        match it {
            Item::Fn(f) => add(&f.sig),
            Item::Impl(i) => {
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        add(&f.sig);
                    }
                }
            }
            _ => {}
        }
    }
    for it in its {
        if let Item::Mod(m) = it {
            if let Some((_, c)) = &m.content {
                collect_results(c, kinds);
            }
        }
    }
}

/// the variants whose only field is a Box
fn collect_boxed(its: &[Item], boxed: &mut BTreeSet<String>) {
    for it in its {
        match it {
            Item::Mod(m) => {
                if let Some((_, c)) = &m.content {
                    collect_boxed(c, boxed);
                }
            }
            Item::Enum(e) => {
                for v in &e.variants {
                    if let Fields::Unnamed(f) = &v.fields {
                        if f.unnamed.len() == 1 && type_name(&f.unnamed[0].ty) == "Box" {
                            boxed.insert(format!("{}::{}", e.ident, v.ident));
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

/// a Box's clone is a Box of its content's clone
struct BoxClones<'c> {
    boxed: &'c BTreeSet<String>,
}
impl VisitMut for BoxClones<'_> {
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if s.len() >= 2 && self.boxed.contains(&s[s.len() - 2..].join("::")) && c.args.len() == 1 {
                if let Expr::Call(a) = &c.args[0] {
                    if matches!(&*a.func, Expr::Path(q) if q.path.segments.last().unwrap().ident == "clone") {
                        let a = a.clone();
                        c.args[0] = parse_quote!(Box::new(#a));
                    }
                }
            }
        }
    }
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("ref_{}", type_name(&r.elem)),
        _ => "other".into(),
    }
}

fn items(its: &[Item], cx: &rewrite::Cx, cts: &contracts::Map, copies: &BTreeSet<String>, out: &mut Out, path: &str) {
    for it in its {
        match it {
            Item::Mod(m) => {
                let p = format!("{path}{}::", m.ident);
                if let Some((_, c)) = &m.content {
                    items(c, cx, cts, copies, out, &p);
                }
            }
            Item::Struct(s) => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                }
                rewrite::types_item(cx, &mut Item::Struct(s.clone()));
                let mut i = Item::Struct(s.clone());
                rewrite::types_item(cx, &mut i);
                let d = if copies.contains(&s.ident.to_string()) { quote!(#[derive(Clone, Copy)]) } else { quote!() };
                out.items.push((format!("type {}", s.ident), printer::print(quote!(#d #i))));
            }
            Item::Enum(e) => {
                let n = e.ident.to_string();
                if SHIMMED.contains(&n.as_str()) {
                    out.dropped.push(format!("enum {path}{n} (trusted shim)"));
                    continue;
                }
                let mut e = e.clone();
                e.attrs.clear();
                e.vis = parse_quote!(pub);
                for v in e.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                let mut arms = vec![];
                for (k, v) in e.variants.iter().enumerate() {
                    let id = &v.ident;
                    let k = proc_macro2::Literal::usize_suffixed(k);
                    arms.push(match v.fields {
                        Fields::Unit => quote!(Self::#id => #k,),
                        Fields::Unnamed(_) => quote!(Self::#id(..) => #k,),
                        Fields::Named(_) => quote!(Self::#id{..} => #k,),
                    });
                }
                let (ig, tg, _) = e.generics.split_for_impl();
                let nm = &e.ident;
                let discr = format!("impl {} {}{} {{\npub fn xdiscr(&self) -> (r: usize) ensures r == (match *self {{ {} }}) {{ match *self {{ {} }} }}\n}}\n",
                    quote!(#ig), nm, quote!(#tg), quote!(#(#arms)*), quote!(#(#arms)*));
                let mut i = Item::Enum(e);
                rewrite::types_item(cx, &mut i);
                let d = if copies.contains(&n) { quote!(#[derive(Clone, Copy)]) } else { quote!() };
                out.items.push((format!("type {n}"), printer::print(quote!(#d #i)) + "\n" + &discr));
            }
            Item::Fn(f) => {
                let key = f.sig.ident.to_string();
                function(&key, None, &f.sig, &f.block, cx, cts, out);
            }
            Item::Const(c) => {
                let key = c.ident.to_string();
                let ty = &c.ty;
                let id = &c.ident;
                let e = &c.expr;
                let sig: Signature = parse_quote!(fn #id() -> #ty);
                let b: Block = parse_quote!({ #e });
                if matches!(**ty, Type::BareFn(_)) {
                    // `const gamma: fn(f64) -> f64 = f64::gamma;`
                    if let Type::BareFn(bf) = &**ty {
                        let mut ins = vec![];
                        let mut args = vec![];
                        for (k, i) in bf.inputs.iter().enumerate() {
                            let n = format_ident!("__a{}", k);
                            let t = &i.ty;
                            ins.push(quote!(#n: #t));
                            args.push(quote!(#n));
                        }
                        let o = &bf.output;
                        let sig: Signature = parse_quote!(fn #id(#(#ins),*) #o);
                        let b: Block = parse_quote!({ #e(#(#args),*) });
                        function(&key, None, &sig, &b, cx, cts, out);
                    }
                    continue;
                }
                function(&key, None, &sig, &b, cx, cts, out);
            }
            Item::Impl(i) => implementation(i, cx, cts, out, path),
            Item::Use(_) | Item::ExternCrate(_) => {}
            Item::Trait(t) => out.dropped.push(format!("trait {path}{} (its impls become inherent)", t.ident)),
            Item::Type(t) => out.dropped.push(format!("type alias {path}{}", t.ident)),
            Item::ForeignMod(_) => out.dropped.push(format!("extern block in {path} (trusted shim)")),
            Item::Macro(m) => out.dropped.push(format!("macro_rules {}", m.ident.as_ref().map(|i| i.to_string()).unwrap_or_default())),
            o => out.dropped.push(format!("item {}", o.to_token_stream().to_string().chars().take(60).collect::<String>())),
        }
    }
}

fn implementation(i: &ItemImpl, cx: &rewrite::Cx, cts: &contracts::Map, out: &mut Out, path: &str) {
    let tn = type_name(&i.self_ty);
    if SHIMMED.contains(&tn.as_str()) {
        out.dropped.push(format!("impl for {path}{tn} (trusted shim)"));
        return;
    }
    let mut prefix = String::new();
    let mut rename: Option<(&str, String)> = None;
    let mut self_error: Option<Type> = None;
    if let Some((_, p, _)) = &i.trait_ {
        let seg = p.segments.last().unwrap();
        let t = seg.ident.to_string();
        if DROP_TRAITS.contains(&t.as_str()) {
            if t != "StructuralPartialEq" {
                out.dropped.push(format!("impl {t} for {tn}"));
            }
            return;
        }
        match t.as_str() {
            "PartialEq" => rename = Some(("eq", "xeq".into())),
            "From" => {
                let arg = match &seg.arguments {
                    PathArguments::AngleBracketed(a) => match &a.args[0] {
                        GenericArgument::Type(t) => type_name(t),
                        _ => "x".into(),
                    },
                    _ => "x".into(),
                };
                rename = Some(("from", format!("from__{arg}")));
            }
            "Display" => {}
            "Clone" if cx.copies.contains(&tn) => {
                out.dropped.push(format!("impl Clone for {tn} (Copy)"));
                return;
            }
            "Clone" => rename = Some(("clone", "xclone".into())),
            "Simplify" | "TryFrom" | "Diagnostic" | "Default" => {}
            _ => {
                out.problems.push(format!("impl of unknown trait {t} for {tn}"));
                return;
            }
        }
        prefix = t;
    }
    for it in &i.items {
        if let ImplItem::Type(t) = it {
            if t.ident == "Error" {
                self_error = Some(t.ty.clone());
            }
        }
    }
    for it in &i.items {
        if let ImplItem::Fn(f) = it {
            let mut f = f.clone();
            let mut name = f.sig.ident.to_string();
            if prefix == "Display" && name == "fmt" {
                f.sig.ident = format_ident!("xfmt");
                name = "xfmt".into();
            }
            if let Some((o, n)) = &rename {
                if name == *o {
                    f.sig.ident = format_ident!("{}", n);
                    name = n.clone();
                }
            }
            if prefix == "Clone" {
                BoxClones { boxed: &cx.boxed }.visit_block_mut(&mut f.block);
            }
            if let Some(e) = &self_error {
                rewrite::subst_self_error(&mut f, e);
            }
            let key = format!("{tn}::{name}");
            // impl generics: hoist generics of `impl<T> From<T>` onto the function
            let mut hdr_generics = i.generics.clone();
            let where_ = hdr_generics.where_clause.take();
            let mut keep = hdr_generics.clone();
            keep.params = keep
                .params
                .iter()
                .filter(|p| matches!(p, GenericParam::Lifetime(_)))
                .cloned()
                .collect();
            for p in hdr_generics.params.iter() {
                if let GenericParam::Type(_) = p {
                    f.sig.generics.params.push(p.clone());
                }
            }
            if let Some(w) = where_ {
                f.sig.generics.make_where_clause().predicates.extend(w.predicates);
            }
            let ty = &i.self_ty;
            let hdr = quote!(impl #keep #ty);
            function(&key, Some(hdr), &f.sig, &f.block, cx, cts, out);
        }
    }
}

/// A contract names the body's mutable locals. Where a body gave some of them other names, the
/// names not found stand, in order, for the mutable locals the contract does not name.
fn rename_locals(c: &mut contracts::Contract, sig: &Signature, block: &Block) -> Vec<String> {
    use syn::visit::Visit;
    struct V {
        all: BTreeSet<String>,
        muts: Vec<String>,
    }
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            let n = p.ident.to_string();
            if p.mutability.is_some() && (!n.starts_with("__") || n == "__acc") && n != "self_" {
                self.muts.push(n.clone());
            }
            self.all.insert(n);
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V { all: BTreeSet::new(), muts: vec![] };
    v.visit_signature(sig);
    v.visit_block(block);
    let missing: Vec<String> = c.locals.iter().filter(|n| !v.all.contains(*n)).cloned().collect();
    let spare: Vec<String> = v.muts.iter().filter(|n| !c.locals.contains(n)).cloned().collect();
    if missing.is_empty() || spare.len() < missing.len() {
        return vec![];
    }
    let mut done = vec![];
    for (m, s) in missing.iter().zip(spare.iter()) {
        let f = |t: &mut String| *t = replace_word(t, m, s);
        for t in [&mut c.spec, &mut c.entry, &mut c.tail] {
            f(t);
        }
        for l in c.loops.values_mut() {
            for t in [&mut l.inv, &mut l.body, &mut l.after, &mut l.end] {
                f(t);
            }
        }
        done.push(format!("{m}={s}"));
    }
    done
}
/// proof steps, recognisable as such
fn mark(t: String) -> String {
    if t.trim().is_empty() { t } else { format!("\n//@h{{\n{t}\n//@h}}\n") }
}
fn replace_word(t: &str, from: &str, to: &str) -> String {
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut rest = t;
    while let Some(k) = rest.find(from) {
        let before = rest[..k].chars().last().or(out.chars().last());
        let after = rest[k + from.len()..].chars().next();
        out.push_str(&rest[..k]);
        // a field or a path is something else
        let free = before.map_or(true, |c| !word(c) && c != '$') && after.map_or(true, |c| !word(c))
            && !(before == Some('.') && !out.ends_with(".."));
        out.push_str(if free { to } else { from });
        rest = &rest[k + from.len()..];
    }
    out.push_str(rest);
    out
}

pub fn function(key: &str, hdr: Option<TokenStream>, sig: &Signature, block: &Block, cx: &rewrite::Cx, cts: &contracts::Map, out: &mut Out) {
    let ct = cts.get(key);
    if let Some(c) = ct {
        out.used.insert(key.to_string());
        if c.drop {
            out.dropped.push(format!("fn {key} ({})", c.reason));
            return;
        }
    }
    let mut sig = sig.clone();
    let mut block = block.clone();
    let mut rw = rewrite::Rw::new(cx, key);
    rw.signature(&mut sig, &mut block);
    rw.visit_block_mut(&mut block);
    for (n, s, b, k) in std::mem::take(&mut rw.lifted) {
        function(&k, n, &s, &b, cx, cts, out);
    }
    for p in rw.problems.iter() {
        out.problems.push(format!("{key}: {p}"));
    }
    let empty = contracts::Contract::default();
    let mut c = ct.unwrap_or(&empty).clone();
    let mapped = rename_locals(&mut c, &sig, &block);
    if !mapped.is_empty() {
        out.renamed.push(format!("{key} {}", mapped.join(" ")));
    }
    let c = &c;
    let params: Vec<String> = sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => Some(t.pat.to_token_stream().to_string()),
            FnArg::Receiver(_) => None,
        })
        .collect();
    let ret = c.ret.clone().unwrap_or_else(|| "r".into());
    let mut head = String::new();
    for a in &c.attrs {
        head.push_str(a);
        head.push('\n');
    }
    if ct.is_none() && rw.auto_spec.is_none() {
        head.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
    }
    if c.external {
        head.push_str("#[verifier::external_body]\n");
    }
    head.push_str("pub fn ");
    head.push_str(&sig.ident.to_string());
    let g = &sig.generics;
    let lt = &g.params;
    if !lt.is_empty() {
        head.push_str(&format!("<{}>", quote!(#lt)));
    }
    let inputs = &sig.inputs;
    head.push_str(&format!("({})", quote!(#inputs)));
    if let ReturnType::Type(_, t) = &sig.output {
        head.push_str(&format!(" -> ({}: {})", ret, quote!(#t)));
    }
    if let Some(w) = &g.where_clause {
        head.push_str(&format!("\n{}", quote!(#w)));
    }
    let sub = |s: &str| -> String {
        let mut s = s.to_string();
        for (k, p) in params.iter().enumerate().rev() {
            s = s.replace(&format!("${}", k + 1), p.trim_start_matches("mut "));
        }
        s
    };
    let mut spec = sub(&c.spec);
    if spec.is_empty() {
        spec = rw.auto_spec.clone().map(|s| sub(&s)).unwrap_or_default();
    }
    let nloops = rw.loops;
    out.fns.push((key.to_string(), ct.is_some() || rw.auto_spec.is_some(), nloops));
    for (k, _) in &c.loops {
        if *k >= nloops {
            out.problems.push(format!("{key}: contract has an invariant for loop {k}, the code has {nloops} loops"));
        }
    }
    if nloops > 0 {
        for k in 0..nloops {
            if !c.loops.contains_key(&k) {
                out.problems.push(format!("{key}: loop {k} has no invariant"));
            }
        }
    }
    let mut body = if c.external {
        "{ unimplemented!() }".to_string()
    } else {
        if !c.tail.is_empty() {
            block = rewrite::wrap_tail(block);
        }
        let loops: BTreeMap<usize, (String, String, String, String)> =
            c.loops.iter().map(|(k, v)| (*k, (sub(&v.inv), mark(sub(&v.body)), mark(sub(&v.after)), mark(sub(&v.end))))).collect();
        printer::print_block(&block, &loops)
    };
    body = body.replacen('{', &format!("{{\n{}", mark(sub(&c.entry))), 1);
    if !c.tail.is_empty() && !c.external {
        let tail = mark(sub(&c.tail));
        body = body.replace("__tail__ ! () ;", &tail).replace("__tail__!();", &tail).replace("__tail__ !();", &tail);
    }
    let mut t = String::new();
    if let Some(h) = &hdr {
        t.push_str(&format!("{} {{\n", h));
    }
    t.push_str(&head);
    t.push('\n');
    t.push_str(&spec);
    t.push('\n');
    t.push_str(&body);
    t.push('\n');
    if hdr.is_some() {
        t.push_str("}\n");
    }
    out.items.push((format!("fn {key} group={}", c.group), t));
}
