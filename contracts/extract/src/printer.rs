//! Prints token streams one statement a line, weaving loop contracts in at the markers
//! `__loop__ ! (k) ;` (first statement of a loop body).
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;

type Loops = BTreeMap<usize, (String, String, String, String)>;

pub fn print(ts: TokenStream) -> String {
    let mut p = P { out: String::new(), ind: 0, loops: &BTreeMap::new() };
    p.stream(ts);
    p.out
}
pub fn print_block(b: &syn::Block, loops: &Loops) -> String {
    let mut p = P { out: String::new(), ind: 0, loops };
    p.stream(b.to_token_stream());
    p.out
}
struct P<'a> {
    out: String,
    ind: usize,
    loops: &'a Loops,
}
impl P<'_> {
    fn nl(&mut self) {
        self.out.push('\n');
        for _ in 0..self.ind {
            self.out.push_str("    ");
        }
    }
    fn stream(&mut self, ts: TokenStream) {
        let mut joint = true;
        let mut ts = ts.into_iter().peekable();
        while let Some(t) = ts.next() {
            match t {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut extra = String::new();
                        let mut after = String::new();
                        let mut end = String::new();
                        let mut semi = false;
                        if inner.len() >= 4 {
                            if let TokenTree::Ident(i) = &inner[0] {
                                if i == "__loop__" {
                                    let k: usize = inner[2].to_string().trim_matches(|c| c == '(' || c == ')').trim().parse().unwrap();
                                    if let Some((inv, body, aft, en)) = self.loops.get(&k) {
                                        after = aft.clone();
                                        end = en.clone();
                                        // a block straight after a loop is read as the loop's body
                                        semi = matches!(ts.peek(), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace);
                                        self.out.push('\n');
                                        self.out.push_str(inv);
                                        extra = body.clone();
                                    }
                                    inner.drain(0..4);
                                }
                            }
                        }
                        self.out.push_str(" {");
                        self.ind += 1;
                        if !extra.is_empty() {
                            self.nl();
                            self.out.push_str(&extra);
                        }
                        if !inner.is_empty() {
                            self.nl();
                        }
                        self.stream(inner.into_iter().collect());
                        if !end.is_empty() {
                            self.out.push_str(";\n");
                            self.out.push_str(&end);
                        }
                        self.ind -= 1;
                        self.nl();
                        self.out.push('}');
                        if semi {
                            self.out.push(';');
                        }
                        self.nl();
                        if !after.is_empty() {
                            self.out.push_str(&after);
                            self.nl();
                        }
                        joint = true;
                    }
                    Delimiter::Parenthesis | Delimiter::Bracket => {
                        let (a, b) = if g.delimiter() == Delimiter::Parenthesis { ('(', ')') } else { ('[', ']') };
                        self.out.push(a);
                        self.stream(g.stream());
                        self.out.push(b);
                        joint = false;
                    }
                    Delimiter::None => {
                        self.stream(g.stream());
                        joint = false;
                    }
                },
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if !joint && !matches!(c, ',' | ';' | '.' | '?') {
                        self.out.push(' ');
                    }
                    self.out.push(c);
                    joint = p.spacing() == Spacing::Joint || matches!(c, '.' | '&' | '\'' | '!' | '#');
                    if c == ':' {
                        joint = true;
                    }
                    if c == ';' {
                        self.nl();
                        joint = true;
                    }
                }
                TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if !joint {
                        self.out.push(' ');
                    }
                    self.out.push_str(&s);
                    joint = false;
                }
                TokenTree::Literal(l) => {
                    if !joint {
                        self.out.push(' ');
                    }
                    self.out.push_str(&l.to_string());
                    joint = false;
                }
            }
        }
    }
}
