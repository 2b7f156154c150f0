//! A small `macro_rules!` expander for the crate's own local macros (`try_start!`, `try_opt!`,
//! `chain_result!`, ...). Expansion is what rustc does with them, minus hygiene.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::HashMap;
use syn::parse::{ParseStream, Parser};

#[derive(Clone, Debug)]
pub enum Bind {
    One(TokenStream),
    Many(Vec<HashMap<String, Bind>>),
}
type Binds = HashMap<String, Bind>;

#[derive(Clone)]
pub struct Rule {
    pat: TokenStream,
    body: TokenStream,
}

pub type Macros = HashMap<String, Vec<Rule>>;

pub fn parse_rules(ts: TokenStream) -> Vec<Rule> {
    let tts: Vec<TokenTree> = ts.into_iter().collect();
    let mut rules = vec![];
    let mut i = 0;
    while i < tts.len() {
        if let TokenTree::Group(p) = &tts[i] {
            // pat => body
            let mut j = i + 1;
            while j < tts.len() && !matches!(tts[j], TokenTree::Group(_)) {
                j += 1;
            }
            if let Some(TokenTree::Group(b)) = tts.get(j) {
                rules.push(Rule { pat: p.stream(), body: b.stream() });
            }
            i = j + 1;
        } else {
            i += 1;
        }
    }
    rules
}

#[derive(Debug)]
enum Pat {
    Var(String, String),
    Tok(TokenTree),
    Rep(Vec<Pat>, Option<TokenTree>, char),
    Grp(Delimiter, Vec<Pat>),
}

fn parse_pat(ts: TokenStream) -> Vec<Pat> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        match &t[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match &t[i + 1] {
                TokenTree::Ident(n) => {
                    let frag = t[i + 3].to_string();
                    out.push(Pat::Var(n.to_string(), frag));
                    i += 4;
                }
                TokenTree::Group(g) => {
                    let inner = parse_pat(g.stream());
                    let (sep, op, n) = rep_tail(&t, i + 2);
                    out.push(Pat::Rep(inner, sep, op));
                    i += 2 + n;
                }
                _ => i += 1,
            },
            TokenTree::Group(g) => {
                out.push(Pat::Grp(g.delimiter(), parse_pat(g.stream())));
                i += 1;
            }
            x => {
                out.push(Pat::Tok(x.clone()));
                i += 1;
            }
        }
    }
    out
}

fn rep_tail(t: &[TokenTree], i: usize) -> (Option<TokenTree>, char, usize) {
    let is_op = |x: &TokenTree| matches!(x, TokenTree::Punct(p) if "*+?".contains(p.as_char()));
    if is_op(&t[i]) {
        if let TokenTree::Punct(p) = &t[i] {
            return (None, p.as_char(), 1);
        }
    }
    if let TokenTree::Punct(p) = &t[i + 1] {
        return (Some(t[i].clone()), p.as_char(), 2);
    }
    (None, '*', 0)
}

fn match_seq(pats: &[Pat], input: ParseStream, binds: &mut Binds) -> syn::Result<()> {
    for p in pats {
        match p {
            Pat::Var(n, frag) => {
                let ts = match frag.as_str() {
                    "expr" => input.parse::<syn::Expr>()?.to_token_stream(),
                    "ident" => input.parse::<syn::Ident>()?.to_token_stream(),
                    "ty" => input.parse::<syn::Type>()?.to_token_stream(),
                    "pat" => syn::Pat::parse_multi(input)?.to_token_stream(),
                    "tt" => input.parse::<TokenTree>()?.to_token_stream(),
                    _ => return Err(input.error("unsupported fragment")),
                };
                let ts = if frag == "expr" && needs_paren(&ts) {
                    TokenTree::Group(Group::new(Delimiter::Parenthesis, ts)).into()
                } else {
                    ts
                };
                binds.insert(n.clone(), Bind::One(ts));
            }
            Pat::Tok(t) => {
                let got: TokenTree = input.parse()?;
                if got.to_string() != t.to_string() {
                    return Err(input.error("token mismatch"));
                }
            }
            Pat::Grp(_, inner) => {
                let got: TokenTree = input.parse()?;
                if let TokenTree::Group(g) = got {
                    let f = |i: ParseStream| match_seq(inner, i, binds);
                    f.parse2(g.stream())?;
                } else {
                    return Err(input.error("group expected"));
                }
            }
            Pat::Rep(inner, sep, op) => {
                let mut all = vec![];
                loop {
                    if input.is_empty() {
                        break;
                    }
                    let fork = input.fork();
                    let mut b = Binds::new();
                    if match_seq(inner, &fork, &mut b).is_err() {
                        break;
                    }
                    let mut b = Binds::new();
                    match_seq(inner, input, &mut b)?;
                    all.push(b);
                    if *op == '?' {
                        break;
                    }
                    if let Some(s) = sep {
                        let fork = input.fork();
                        match fork.parse::<TokenTree>() {
                            Ok(t) if t.to_string() == s.to_string() => {
                                let _: TokenTree = input.parse()?;
                            }
                            _ => break,
                        }
                    }
                }
                if *op == '+' && all.is_empty() {
                    return Err(input.error("one expected"));
                }
                let mut names = vec![];
                names_of(inner, &mut names);
                for n in names {
                    binds.insert(n, Bind::Many(all.clone()));
                }
            }
        }
    }
    Ok(())
}

fn names_of(p: &[Pat], out: &mut Vec<String>) {
    for x in p {
        match x {
            Pat::Var(n, _) => out.push(n.clone()),
            Pat::Rep(i, _, _) | Pat::Grp(_, i) => names_of(i, out),
            _ => {}
        }
    }
}

fn needs_paren(ts: &TokenStream) -> bool {
    match syn::parse2::<syn::Expr>(ts.clone()) {
        Ok(e) => !matches!(
            e,
            syn::Expr::Path(_)
                | syn::Expr::Lit(_)
                | syn::Expr::Call(_)
                | syn::Expr::MethodCall(_)
                | syn::Expr::Field(_)
                | syn::Expr::Paren(_)
                | syn::Expr::Index(_)
                | syn::Expr::Macro(_)
                | syn::Expr::Block(_)
                | syn::Expr::Tuple(_)
        ),
        Err(_) => false,
    }
}

fn subst(body: TokenStream, binds: &Binds) -> Result<TokenStream, String> {
    let t: Vec<TokenTree> = body.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < t.len() {
        match &t[i] {
            TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < t.len() => match &t[i + 1] {
                TokenTree::Ident(n) if n == "crate" => {
                    // `$crate::x` -> `x`
                    i += 2;
                    while i < t.len() && matches!(&t[i], TokenTree::Punct(p) if p.as_char() == ':') {
                        i += 1;
                    }
                }
                TokenTree::Ident(n) => match binds.get(&n.to_string()) {
                    Some(Bind::One(ts)) => {
                        out.extend(ts.clone());
                        i += 2;
                    }
                    _ => return Err(format!("unbound macro variable {}", n)),
                },
                TokenTree::Group(g) => {
                    let (sep, _, n) = rep_tail(&t, i + 2);
                    let mut vars = vec![];
                    vars_in(g.stream(), &mut vars);
                    let iters = vars.iter().find_map(|v| match binds.get(v) {
                        Some(Bind::Many(m)) => Some(m.clone()),
                        _ => None,
                    });
                    let iters = iters.ok_or("no repetition variable")?;
                    let len = iters.len();
                    for (k, b) in iters.into_iter().enumerate() {
                        let mut bb = binds.clone();
                        bb.extend(b);
                        out.extend(subst(g.stream(), &bb)?);
                        if let (Some(s), true) = (&sep, k + 1 < len) {
                            out.push(s.clone());
                        }
                    }
                    i += 2 + n;
                }
                _ => return Err("bad $".into()),
            },
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), subst(g.stream(), binds)?);
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
                i += 1;
            }
            x => {
                out.push(x.clone());
                i += 1;
            }
        }
    }
    Ok(out.into_iter().collect())
}

fn vars_in(ts: TokenStream, out: &mut Vec<String>) {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..t.len() {
        match &t[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(n)) = t.get(i + 1) {
                    out.push(n.to_string());
                }
            }
            TokenTree::Group(g) => vars_in(g.stream(), out),
            _ => {}
        }
    }
}

pub fn expand(rules: &[Rule], input: TokenStream) -> Result<TokenStream, String> {
    for r in rules {
        let pats = parse_pat(r.pat.clone());
        let mut binds = Binds::new();
        let res = {
            let b = &mut binds;
            let f = |i: ParseStream| match_seq(&pats, i, b);
            f.parse2(input.clone())
        };
        if res.is_ok() {
            return subst(r.body.clone(), &binds);
        }
    }
    Err("no macro rule matched".into())
}
