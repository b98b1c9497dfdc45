//! The contract file: `@@ key`, then sections.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct LoopC {
    pub inv: String,
    pub body: String,
    pub after: String,
    pub end: String,
}
#[derive(Default, Clone, Debug)]
pub struct Contract {
    pub ret: Option<String>,
    pub group: String,
    pub attrs: Vec<String>,
    pub spec: String,
    pub entry: String,
    pub tail: String,
    pub external: bool,
    pub drop: bool,
    pub reason: String,
    /// the body's mutable locals, in the order of their declaration
    pub locals: Vec<String>,
    pub loops: BTreeMap<usize, LoopC>,
}
pub type Map = BTreeMap<String, Contract>;

pub fn load(path: &str, flags: &[String]) -> Map {
    let mut text = String::new();
    for p in path.split(',') {
        text.push_str(&std::fs::read_to_string(p).unwrap());
        text.push('\n');
    }
    let text = text;
    let mut m = Map::new();
    let mut keys: Vec<String> = vec![];
    let mut cur = Contract::default();
    #[derive(Clone, PartialEq)]
    enum S {
        None,
        Spec,
        Entry,
        Tail,
        Inv(usize),
        Body(usize),
        After(usize),
        End(usize),
    }
    let mut s = S::None;
    let mut group = String::from("misc");
    let mut stack: Vec<bool> = vec![];
    for l in text.lines() {
        let t = l.trim();
        if let Some(c) = t.strip_prefix("#if ") {
            let on = c.split("||").any(|alt| {
                alt.split("&&").all(|f| {
                    let f = f.trim();
                    match f.strip_prefix('!') {
                        Some(n) => !flags.iter().any(|x| x == n),
                        None => flags.iter().any(|x| x == f),
                    }
                })
            });
            stack.push(on);
            continue;
        }
        if t == "#else" {
            let x = stack.pop().unwrap();
            stack.push(!x);
            continue;
        }
        if t == "#endif" {
            stack.pop();
            continue;
        }
        if stack.iter().any(|b| !b) {
            continue;
        }
        if let Some(k) = t.strip_prefix("@@ ") {
            for k in keys.drain(..) {
                m.insert(k, cur.clone());
            }
            cur = Contract { group: group.clone(), ..Contract::default() };
            keys = k.split_whitespace().map(|x| x.to_string()).collect();
            s = S::Spec;
            continue;
        }
        if let Some(d) = t.strip_prefix('@') {
            let mut w = d.split_whitespace();
            let k = w.next().unwrap_or("");
            let rest = w.collect::<Vec<_>>().join(" ");
            match k {
                "ret" => cur.ret = Some(rest),
                "group" => group = rest,
                "local" => cur.locals = rest.split_whitespace().map(|x| x.to_string()).collect(),
                "attr" => cur.attrs.push(rest),
                "spec" => s = S::Spec,
                "entry" => s = S::Entry,
                "tail" => s = S::Tail,
                "external" => cur.external = true,
                "drop" => {
                    cur.drop = true;
                    cur.reason = rest;
                }
                "loop" => s = S::Inv(rest.parse().unwrap()),
                "body" => s = S::Body(rest.parse().unwrap()),
                "end" => s = S::End(rest.parse().unwrap()),
                "after" => s = S::After(rest.parse().unwrap()),
                _ => panic!("contracts: unknown directive @{d}"),
            }
            if let S::Inv(k) = s {
                cur.loops.entry(k).or_default();
            }
            continue;
        }
        if t.starts_with("//") && s == S::None {
            continue;
        }
        let dst = match &s {
            S::None => continue,
            S::Spec => &mut cur.spec,
            S::Entry => &mut cur.entry,
            S::Tail => &mut cur.tail,
            S::Inv(k) => &mut cur.loops.entry(*k).or_default().inv,
            S::Body(k) => &mut cur.loops.entry(*k).or_default().body,
            S::End(k) => &mut cur.loops.entry(*k).or_default().end,
            S::After(k) => &mut cur.loops.entry(*k).or_default().after,
        };
        if dst.is_empty() && t.is_empty() {
            continue;
        }
        dst.push_str(l);
        dst.push('\n');
    }
    for k in keys.drain(..) {
        m.insert(k, cur.clone());
    }
    m
}
