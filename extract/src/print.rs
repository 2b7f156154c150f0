//! Token printer with one statement per line and places for loop contracts and proof blocks.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;

pub struct Printer<'a> {
    loops: &'a BTreeMap<usize, Vec<String>>,
    bodies: &'a BTreeMap<usize, Vec<String>>,
    before: &'a [(String, Vec<String>)],
}

fn marker(tts: &[TokenTree], i: usize, name: &str) -> Option<usize> {
    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (tts.get(i), tts.get(i + 1), tts.get(i + 2)) {
        if id == name && p.as_char() == '!' {
            return g.stream().to_string().trim().parse().ok();
        }
    }
    None
}

impl<'a> Printer<'a> {
    pub fn new(loops: &'a BTreeMap<usize, Vec<String>>, bodies: &'a BTreeMap<usize, Vec<String>>, before: &'a [(String, Vec<String>)]) -> Self {
        Printer { loops, bodies, before }
    }
    pub fn block(&self, b: &syn::Block, prologue: &[String], pre: &[String]) -> String {
        let mut o = String::from("{\n");
        for l in pre.iter().chain(prologue) {
            o.push_str("    ");
            o.push_str(l);
            o.push('\n');
        }
        for s in &b.stmts {
            self.tokens(s.to_token_stream(), 1, &mut o);
            if !o.ends_with('\n') {
                o.push('\n');
            }
        }
        o.push_str("}\n");
        o
    }
    fn indent(d: usize, o: &mut String) {
        if o.ends_with('\n') {
            for _ in 0..d {
                o.push_str("    ");
            }
        }
    }
    fn tokens(&self, ts: TokenStream, d: usize, o: &mut String) {
        let t: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < t.len() {
            if let Some(n) = marker(&t, i, "vx_before") {
                if !o.ends_with('\n') {
                    o.push('\n');
                }
                for l in &self.before[n].1 {
                    Self::indent(d, o);
                    o.push_str(l);
                    o.push('\n');
                }
                i += 4;
                continue;
            }
            match &t[i] {
                TokenTree::Group(g) => {
                    Self::indent(d, o);
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                            let mut skip = 0;
                            let mut head: &[String] = &[];
                            if let Some(n) = marker(&inner, 0, "vx_loop") {
                                skip = 4;
                                if let Some(l) = self.bodies.get(&n) {
                                    head = l;
                                }
                                if let Some(l) = self.loops.get(&n) {
                                    o.push('\n');
                                    for x in l {
                                        Self::indent(d + 1, o);
                                        o.push_str(x);
                                        o.push('\n');
                                    }
                                    Self::indent(d, o);
                                }
                            }
                            o.push_str("{\n");
                            for x in head {
                                Self::indent(d + 1, o);
                                o.push_str(x);
                                o.push('\n');
                            }
                            self.tokens(inner.into_iter().skip(skip).collect(), d + 1, o);
                            if !o.ends_with('\n') {
                                o.push('\n');
                            }
                            Self::indent(d, o);
                            o.push_str("} ");
                        }
                        Delimiter::Parenthesis => {
                            o.push('(');
                            self.tokens(g.stream(), d + 1, o);
                            o.push_str(") ");
                        }
                        Delimiter::Bracket => {
                            o.push('[');
                            self.tokens(g.stream(), d + 1, o);
                            o.push_str("] ");
                        }
                        Delimiter::None => {
                            o.push_str("(");
                            self.tokens(g.stream(), d, o);
                            o.push_str(") ");
                        }
                    }
                }
                TokenTree::Punct(p) => {
                    Self::indent(d, o);
                    o.push(p.as_char());
                    if p.as_char() == ';' {
                        o.push('\n');
                    } else if p.spacing() == Spacing::Alone {
                        o.push(' ');
                    }
                }
                TokenTree::Ident(id) => {
                    Self::indent(d, o);
                    o.push_str(&id.to_string());
                    o.push(' ');
                }
                TokenTree::Literal(l) => {
                    Self::indent(d, o);
                    o.push_str(&l.to_string());
                    o.push(' ');
                }
            }
            i += 1;
        }
    }
}

pub fn plain(ts: TokenStream) -> String {
    let empty = BTreeMap::new();
    let p = Printer::new(&empty, &empty, &[]);
    let mut o = String::new();
    p.tokens(ts, 0, &mut o);
    o
}

pub fn signature(s: &syn::Signature, name: &str, ret: &str) -> String {
    let mut s = s.clone();
    s.ident = syn::Ident::new(name, s.ident.span());
    let w = s.generics.where_clause.take();
    let out = std::mem::replace(&mut s.output, syn::ReturnType::Default);
    let mut o = plain(s.to_token_stream());
    if let syn::ReturnType::Type(_, t) = out {
        o.push_str(&format!("-> ({}: {})", ret, plain(t.to_token_stream())));
    }
    if let Some(w) = w {
        o.push('\n');
        let mut t = plain(w.to_token_stream()).trim_end().to_string();
        if !t.ends_with(',') {
            t.push(',');
        }
        o.push_str(&t);
    }
    o
}
