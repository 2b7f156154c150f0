//! The rewrites applied to extracted code. Each one is either an identity on behaviour
//! (macro expansion, desugaring) or replaces an expression by a call of a stand-in with an
//! explicit contract in the template. Everything else is left as written.
use crate::mac::{self, Macros};
use crate::Found;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::parse::Parser;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

pub struct Out {
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub loops: usize,
    pub pre: Vec<String>,
    pub rewrites: Vec<String>,
}

pub struct Xform<'a> {
    pub byref: &'a HashMap<String, HashSet<usize>>,
    macros: &'a Macros,
    renames: &'a HashMap<String, String>,
    known: &'a HashSet<String>,
    all: &'a [(String, Found)],
}

const LOG: &[&str] = &["trace", "debug", "info", "warn", "error", "log"];

fn mac_name(m: &syn::Macro) -> String {
    m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

/// `::a::b`, `super::b`, `self::b`, `crate::x::b` -> `b`-relative
fn strip_path(p: &mut syn::Path) {
    p.leading_colon = None;
    let drop = ["super", "self", "crate", "server", "client", "std", "core"];
    while p.segments.len() > 1 && drop.iter().any(|d| p.segments[0].ident == d) {
        p.segments = p.segments.iter().skip(1).cloned().collect();
    }
    if p.segments.len() > 1 && ["boundary", "field", "save"].iter().any(|d| p.segments[0].ident == d) {
        p.segments = p.segments.iter().skip(1).cloned().collect();
    }
}

struct Paths;
thread_local!(pub static TYPES: std::cell::RefCell<Vec<(String, String)>> = std::cell::RefCell::new(vec![]));
impl VisitMut for Paths {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        let s = t.to_token_stream().to_string().replace(' ', "");
        let new = TYPES.with(|v| v.borrow().iter().find(|(a, _)| *a == s).map(|x| x.1.clone()));
        if let Some(n) = new {
            *t = syn::parse_str(&n).expect("rename-type");
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        strip_path(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) {
        *v = syn::Visibility::Inherited;
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

pub fn item(it: &syn::Item, opts: &[String]) -> String {
    let mut it = it.clone();
    match &mut it {
        syn::Item::Struct(s) => s.attrs.clear(),
        syn::Item::Enum(s) => s.attrs.clear(),
        syn::Item::Const(s) => {
            s.attrs.clear();
            if let syn::Type::Reference(r) = &mut *s.ty {
                if r.lifetime.is_none() {
                    r.lifetime = Some(syn::parse_quote!('static));
                }
            }
        }
        _ => {}
    }
    Paths.visit_item_mut(&mut it);
    Bytes.visit_item_mut(&mut it);
    if opts.iter().any(|o| o == "nobounds") {
        match &mut it {
            syn::Item::Struct(s) => strip_bounds(&mut s.generics),
            syn::Item::Enum(s) => strip_bounds(&mut s.generics),
            _ => {}
        }
    }
    let mut s = crate::print::plain(it.to_token_stream());
    s.push('\n');
    s
}
fn strip_bounds(g: &mut syn::Generics) {
    for p in g.params.iter_mut() {
        if let syn::GenericParam::Type(t) = p {
            t.bounds = Default::default();
            t.colon_token = None;
        }
    }
    g.where_clause = None;
}

pub fn clean_sig(s: &syn::Signature) -> syn::Signature {
    let mut s = s.clone();
    for i in s.inputs.iter_mut() {
        match i {
            syn::FnArg::Receiver(r) => {
                r.attrs.clear();
                if r.reference.is_none() {
                    r.mutability = None;
                }
            }
            syn::FnArg::Typed(t) => {
                t.attrs.clear();
                if let syn::Pat::Ident(p) = &mut *t.pat {
                    p.mutability = None;
                }
            }
        }
    }
    Paths.visit_signature_mut(&mut s);
    s
}

pub fn params(s: &syn::Signature) -> Vec<String> {
    s.inputs
        .iter()
        .filter_map(|i| match i {
            syn::FnArg::Typed(t) => match &*t.pat {
                syn::Pat::Ident(p) => Some(p.ident.to_string()),
                _ => Some("_".into()),
            },
            _ => None,
        })
        .collect()
}

struct Locals(Vec<String>);
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') && !n.starts_with("vx_") && !self.0.contains(&n) {
            self.0.push(n);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}

struct Rename(HashMap<String, String>);
impl VisitMut for Rename {
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.path.segments.len() == 1 && p.path.leading_colon.is_none() {
            let id = &mut p.path.segments[0].ident;
            if let Some(n) = self.0.get(&id.to_string()) {
                *id = syn::Ident::new(n, id.span());
            }
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = syn::Ident::new(n, p.ident.span());
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = rename_tokens(m.tokens.clone(), &self.0);
    }
}
fn rename_tokens(ts: TokenStream, m: &HashMap<String, String>) -> TokenStream {
    use proc_macro2::TokenTree::*;
    let mut prev_dot = false;
    ts.into_iter()
        .map(|t| {
            let dot = prev_dot;
            prev_dot = matches!(&t, Punct(p) if p.as_char() == '.');
            match t {
                Ident(i) if !dot => match m.get(&i.to_string()) {
                    Some(n) => Ident(proc_macro2::Ident::new(n, i.span())),
                    None => Ident(i),
                },
                Group(g) => {
                    let mut ng = proc_macro2::Group::new(g.delimiter(), rename_tokens(g.stream(), m));
                    ng.set_span(g.span());
                    Group(ng)
                }
                x => x,
            }
        })
        .collect()
}

/// byte string literals become array literals of the same type
struct Bytes;
impl VisitMut for Bytes {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Lit(l) = e {
            if let syn::Lit::ByteStr(b) = &l.lit {
                let v = b.value();
                let lits = v.iter().map(|x| syn::LitInt::new(&format!("{}u8", x), b.span()));
                *e = parse_quote!(&[#(#lits),*]);
            }
        }
    }
}

struct Expand<'a> {
    macros: &'a Macros,
    /// `macro_rules!` in the function body
    local: Macros,
    err: Option<String>,
    used: Vec<String>,
    depth: usize,
}
impl<'a> Expand<'a> {
    fn run(&mut self, m: &syn::Macro) -> Option<TokenStream> {
        let n = mac_name(m);
        let rules = self.local.get(&n).or_else(|| self.macros.get(&n))?;
        self.depth += 1;
        if self.depth > 300 {
            self.err = Some("macro expansion too deep".into());
            return None;
        }
        match mac::expand(rules, m.tokens.clone()) {
            Ok(ts) => {
                self.used.push(format!("expand {}!", n));
                Some(ts)
            }
            Err(e) => {
                self.err = Some(format!("macro {}!: {}", n, e));
                None
            }
        }
    }
}
impl<'a> VisitMut for Expand<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            if let Stmt::Macro(m) = &s {
                let n = mac_name(&m.mac);
                if LOG.contains(&n.as_str()) {
                    self.used.push(format!("drop {}!", n));
                    continue;
                }
                if self.macros.contains_key(&n) || self.local.contains_key(&n) {
                    if let Some(ts) = self.run(&m.mac) {
                        match syn::Block::parse_within.parse2(ts) {
                            Ok(mut v) => {
                                if m.semi_token.is_some() {
                                    if let Some(Stmt::Expr(_, semi)) = v.last_mut() {
                                        *semi = Some(Default::default());
                                    }
                                }
                                out.extend(v);
                                continue;
                            }
                            Err(e) => self.err = Some(format!("expansion of {}!: {}", n, e)),
                        }
                    }
                }
            }
            if let Stmt::Item(syn::Item::Use(u)) = &s {
                // the variants of an enum stay in scope
                let mut t = &u.tree;
                while let syn::UseTree::Path(p) = t {
                    if ["self", "super", "crate", "std", "core"].iter().any(|x| p.ident == x) {
                        t = &p.tree;
                    } else {
                        break;
                    }
                }
                let mut inner = t;
                while let syn::UseTree::Path(p) = inner {
                    if p.ident.to_string().starts_with(char::is_uppercase) {
                        out.push(parse_quote!(use #t;));
                        break;
                    }
                    inner = &p.tree;
                }
                continue;
            }
            if let Stmt::Item(syn::Item::Macro(m)) = &s {
                if m.mac.path.is_ident("macro_rules") {
                    continue;
                }
            }
            if let Stmt::Expr(Expr::Macro(m), _) = &s {
                let n = mac_name(&m.mac);
                if LOG.contains(&n.as_str()) {
                    continue;
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        while let Expr::Macro(m) = e {
            let n = mac_name(&m.mac);
            if LOG.contains(&n.as_str()) {
                *e = parse_quote!(());
                break;
            }
            if !self.macros.contains_key(&n) && !self.local.contains_key(&n) {
                break;
            }
            match self.run(&m.mac) {
                Some(ts) => {
                    // an expansion may be one expression or a sequence of statements
                    match syn::parse2::<Expr>(ts.clone()) {
                        Ok(x) => *e = x,
                        Err(_) => match syn::Block::parse_within.parse2(ts) {
                            Ok(v) => *e = parse_quote!({ #(#v)* }),
                            Err(err) => {
                                self.err = Some(format!("expansion of {}!: {}", n, err));
                                break;
                            }
                        },
                    }
                }
                None => break,
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn local_macros(b: &syn::Block) -> Macros {
    struct V(Macros);
    impl<'a> Visit<'a> for V {
        fn visit_item_macro(&mut self, x: &'a syn::ItemMacro) {
            if let (true, Some(id)) = (x.mac.path.is_ident("macro_rules"), &x.ident) {
                self.0.insert(id.to_string(), mac::parse_rules(x.mac.tokens.clone()));
            }
        }
    }
    let mut v = V(Macros::new());
    v.visit_block(b);
    v.0
}

/// the closures of a body, in source order (macros must be expanded)
struct Closures<'f> {
    n: usize,
    f: &'f mut dyn FnMut(usize, &mut Expr),
}
impl<'f> VisitMut for Closures<'f> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(_) = e {
            let k = self.n;
            self.n += 1;
            visit_mut::visit_expr_mut(self, e);
            (self.f)(k, e);
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// names of the enclosing function that a closure uses, by first use
fn captured(c: &syn::ExprClosure, outer: &HashSet<String>) -> Vec<String> {
    struct V<'o> {
        outer: &'o HashSet<String>,
        own: HashSet<String>,
        out: Vec<String>,
    }
    impl<'a, 'o> Visit<'a> for V<'o> {
        fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
            if let Some(i) = p.path.get_ident() {
                let i = i.to_string();
                if self.outer.contains(&i) && !self.own.contains(&i) && !self.out.contains(&i) {
                    self.out.push(i);
                }
            }
        }
        fn visit_local(&mut self, l: &'a syn::Local) {
            // the initializer comes before the new name
            if let Some(i) = &l.init {
                self.visit_expr(&i.expr);
                if let Some((_, d)) = &i.diverge {
                    self.visit_expr(d);
                }
            }
            self.visit_pat(&l.pat);
        }
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            self.own.insert(p.ident.to_string());
        }
    }
    let mut v = V { outer, own: HashSet::new(), out: vec![] };
    for i in &c.inputs {
        v.visit_pat(i);
    }
    v.visit_expr(&c.body);
    v.out
}
/// which captured name is which field of the contract's environment
fn match_captures(actual: &[String], want: &[(String, bool)]) -> Result<Vec<(String, String, bool)>, String> {
    let names: HashSet<&String> = actual.iter().collect();
    if want.len() == actual.len() && want.iter().all(|(w, _)| names.contains(w)) {
        return Ok(want.iter().map(|(w, m)| (w.clone(), w.clone(), *m)).collect());
    }
    if want.len() == actual.len() {
        return Ok(want.iter().zip(actual).map(|((w, m), a)| (w.clone(), a.clone(), *m)).collect());
    }
    Err(format!("the closure uses {:?}, the contract expects {:?}", actual, want))
}
/// the body of a closure as a function whose environment is `self`
struct Captured(HashMap<String, String>);
impl Captured {
    /// names bound by a pattern hide captured ones
    fn hide(&mut self, p: &syn::Pat) {
        struct Names(Vec<String>);
        impl<'b> Visit<'b> for Names {
            fn visit_pat_ident(&mut self, i: &'b syn::PatIdent) {
                self.0.push(i.ident.to_string());
                syn::visit::visit_pat_ident(self, i);
            }
        }
        let mut n = Names(vec![]);
        n.visit_pat(p);
        for x in n.0 {
            self.0.remove(&x);
        }
    }
}
impl VisitMut for Captured {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let saved = self.0.clone();
        for s in b.stmts.iter_mut() {
            self.visit_stmt_mut(s);
            if let Stmt::Local(l) = s {
                self.hide(&l.pat);
            }
        }
        self.0 = saved;
    }
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        let saved = self.0.clone();
        self.hide(&a.pat);
        visit_mut::visit_arm_mut(self, a);
        self.0 = saved;
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        f.colon_token = Some(f.colon_token.unwrap_or_default());
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(c) = e {
            let saved = self.0.clone();
            let ps: Vec<syn::Pat> = c.inputs.iter().cloned().collect();
            for p in &ps {
                self.hide(p);
            }
            self.visit_expr_mut(&mut c.body);
            self.0 = saved;
            return;
        }
        if let Expr::Path(p) = e {
            if let Some(f) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) {
                let f = syn::Ident::new(f, proc_macro2::Span::call_site());
                *e = parse_quote!((*self.#f));
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// `f(x)` for a function value -> `f.vx_call(x)`
struct Callables(HashSet<String>);
impl VisitMut for Callables {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.get_ident().map_or(false, |i| self.0.contains(&i.to_string())) {
                    let (f, a) = (&c.func, &c.args);
                    *e = parse_quote!(#f.vx_call(#a));
                    return;
                }
            }
            // a captured one: `(*self.f)(x)`
            let mut f = &*c.func;
            while let Expr::Paren(p) = f {
                f = &p.expr;
            }
            if let Expr::Unary(syn::ExprUnary { op: syn::UnOp::Deref(_), expr, .. }) = f {
                if let Expr::Field(syn::ExprField { base, member: syn::Member::Named(m), .. }) = &**expr {
                    if matches!(&**base, Expr::Path(b) if b.path.is_ident("self")) && self.0.contains(&m.to_string()) {
                        let (f, a) = (&c.func, &c.args);
                        *e = parse_quote!(#f.vx_call(#a));
                    }
                }
            }
        }
    }
}
/// arguments of functions that are emitted with by-reference parameters
struct ByRef<'b> {
    table: &'b HashMap<String, HashSet<usize>>,
    own: &'b [String],
    used: bool,
}
impl<'b> ByRef<'b> {
    fn fix(&mut self, a: &mut Expr) {
        match a {
            Expr::Reference(r) if r.mutability.is_some() => {}
            Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.own.contains(&i.to_string())) => {}
            _ => {
                let x = a.clone();
                *a = parse_quote!(&mut #x);
                self.used = true;
            }
        }
    }
}
impl<'b> VisitMut for ByRef<'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Some(t) = self.table.get(&p.path.segments.last().unwrap().ident.to_string()) {
                        for (i, a) in c.args.iter_mut().enumerate() {
                            if t.contains(&i) {
                                self.fix(a);
                            }
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                if let Some(t) = self.table.get(&m.method.to_string()) {
                    for (i, a) in m.args.iter_mut().enumerate() {
                        if t.contains(&i) {
                            self.fix(a);
                        }
                    }
                }
            }
            _ => {}
        }
    }
}
fn outer_names(f: &Found, b: &syn::Block) -> HashSet<String> {
    let mut l = Locals(vec![]);
    l.visit_block(b);
    let mut s: HashSet<String> = l.0.into_iter().collect();
    s.extend(params(&f.sig));
    s.remove("_");
    s
}
/// the `k`-th closure of a function as a function of its own
pub fn closure_of(f: &Found, k: usize, macros: &Macros, baseline: Option<&syn::Signature>, want: &[(String, bool)]) -> Result<Found, String> {
    let mut block = f.block.clone();
    let mut ex = Expand { macros, local: local_macros(&block), err: None, used: vec![], depth: 0 };
    ex.visit_block_mut(&mut block);
    let outer = outer_names(f, &block);
    let mut found: Option<syn::ExprClosure> = None;
    Closures { n: 0, f: &mut |i, e| if let (true, Expr::Closure(c)) = (i == k, &*e) { found = Some(c.clone()) } }.visit_block_mut(&mut block);
    let c = found.ok_or_else(|| format!("no closure {} in the source", k))?;
    let caps = match_captures(&captured(&c, &outer), want)?;
    let mut sig = baseline.cloned().ok_or("closure without //@sig")?;
    let mut ins = c.inputs.iter();
    for i in sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(t) = i {
            let p = ins.next().ok_or("fewer closure parameters than in the contract")?;
            let p = match p {
                syn::Pat::Type(t) => &t.pat,
                x => x,
            };
            *t.pat = match p {
                syn::Pat::Wild(_) => parse_quote!(_vx_unused),
                syn::Pat::Ident(_) => p.clone(),
                _ => return Err("pattern as a closure parameter".into()),
            };
        }
    }
    let mut body: syn::Block = match &*c.body {
        Expr::Block(b) => b.block.clone(),
        e => parse_quote!({ #e }),
    };
    Captured(caps.iter().map(|(w, a, _)| (a.clone(), w.clone())).collect()).visit_block_mut(&mut body);
    Ok(Found { sig, block: body, lines: f.lines, src: f.src.clone() })
}

#[derive(Default, Clone)]
pub struct FnOpts {
    /// parameters emitted as `&mut`
    pub byref: Vec<String>,
    /// closure number, environment, captured names (and whether mutably)
    pub closures: Vec<(usize, String, Vec<(String, bool)>)>,
    pub callables: Vec<String>,
}

struct Flow {
    ret_ok: bool,
    ret_err: bool,
    question: bool,
    brk: bool,
}
impl<'a> Visit<'a> for Flow {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Return(r) => {
                let t = r.expr.as_ref().map(|x| x.to_token_stream().to_string()).unwrap_or_default();
                if t.starts_with("Err (") || t.starts_with("Err(") {
                    self.ret_err = true
                } else {
                    self.ret_ok = true
                }
            }
            Expr::Try(_) => self.question = true,
            Expr::Break(_) | Expr::Continue(_) => self.brk = true,
            Expr::Closure(_) => return,
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}
fn flow(b: &syn::Block) -> Flow {
    let mut f = Flow { ret_ok: false, ret_err: false, question: false, brk: false };
    f.visit_block(b);
    f
}

#[derive(Clone, Copy, PartialEq)]
enum Ctx {
    Plain,
    Question,
    Tail,
}

/// calls of a function-valued parameter -> calls of the argument
struct Calls {
    name: String,
    f: Expr,
    other: usize,
    bad: bool,
}
impl VisitMut for Calls {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.get_ident().map_or(false, |i| *i == self.name) {
                    for a in c.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    let args = &c.args;
                    let new: Expr = match &self.f {
                        Expr::Closure(k) => {
                            let mut probe = Flow { ret_ok: false, ret_err: false, question: false, brk: false };
                            probe.visit_expr(&k.body);
                            if probe.ret_ok || probe.ret_err || probe.question || k.inputs.len() != args.len() {
                                self.bad = true;
                            }
                            let ps = k.inputs.iter().map(|p| match p {
                                syn::Pat::Type(t) => (*t.pat).clone(),
                                x => x.clone(),
                            });
                            let body = &k.body;
                            let args = args.iter();
                            parse_quote!({ #(let #ps = #args;)* #body })
                        }
                        f => parse_quote!(#f(#args)),
                    };
                    *e = new;
                    return;
                }
            }
        }
        if let Expr::Path(p) = e {
            if p.path.get_ident().map_or(false, |i| *i == self.name) {
                self.other += 1;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// constants declared in a function body -> their values
struct Consts {
    vals: HashMap<String, Expr>,
}
impl Consts {
    fn collect(&mut self, b: &mut syn::Block) {
        struct C<'a>(&'a mut HashMap<String, Expr>);
        impl<'a> VisitMut for C<'a> {
            fn visit_block_mut(&mut self, b: &mut syn::Block) {
                b.stmts.retain(|s| match s {
                    Stmt::Item(syn::Item::Const(c)) => {
                        self.0.insert(c.ident.to_string(), (*c.expr).clone());
                        false
                    }
                    _ => true,
                });
                visit_mut::visit_block_mut(self, b);
            }
        }
        C(&mut self.vals).visit_block_mut(b);
    }
}
impl VisitMut for Consts {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(v) = p.path.get_ident().and_then(|i| self.vals.get(&i.to_string())) {
                *e = v.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct Inline<'a> {
    known: &'a HashSet<String>,
    all: &'a [(String, Found)],
    src: String,
    self_ty: String,
    macros: &'a Macros,
    err: Option<String>,
    used: Vec<String>,
    depth: usize,
    n: usize,
    /// names in use
    taken: HashSet<String>,
    /// `?` converts errors by `vx_conv`
    conv: bool,
    /// methods whose body replaces their calls
    methods: HashMap<String, String>,
}
impl<'a> Inline<'a> {
    fn lookup(&self, name: &str, method: bool) -> Option<&'a Found> {
        if self.known.contains(name) {
            return None;
        }
        let want = if method { format!("{}::{}", self.self_ty, name) } else { name.to_string() };
        self.all.iter().find(|(n, f)| *n == want && f.src == self.src).map(|x| &x.1)
    }
    fn body(&mut self, f: &Found, name: &str, args: Vec<Expr>, ctx: Ctx) -> Option<Expr> {
        if self.depth > 6 {
            self.err = Some(format!("recursive helper {}", name));
            return None;
        }
        let mut b = f.block.clone();
        let mut ex = Expand { macros: self.macros, local: local_macros(&b), err: None, used: vec![], depth: 0 };
        ex.visit_block_mut(&mut b);
        let fl = flow(&b);
        let ok = match ctx {
            Ctx::Tail => true,
            Ctx::Question => !fl.ret_ok,
            Ctx::Plain => !fl.ret_ok && !fl.ret_err && !fl.question,
        };
        if !ok {
            let ret = match &f.sig.output {
                syn::ReturnType::Type(_, t) => ty_head(t),
                _ => String::new(),
            };
            match crate::early::eliminate(&b, &ret, self.conv) {
                Some(x) => {
                    b = x;
                    self.used.push(format!("early exits of {} -> branches", name));
                }
                None => {
                    self.err = Some(format!("helper {} returns early and cannot be inlined", name));
                    return None;
                }
            }
        }
        // parameters: fresh names, bound left to right
        let ps: Vec<syn::FnArg> = f.sig.inputs.iter().cloned().collect();
        let mut lets: Vec<Stmt> = vec![];
        let mut ren = HashMap::new();
        let mut ai = args.into_iter();
        let mut post: Vec<Stmt> = vec![];
        for p in ps {
            if let syn::FnArg::Typed(t) = p {
                let a = ai.next()?;
                if let syn::Pat::Ident(pi) = &*t.pat {
                    let fun = match &a {
                        Expr::Closure(_) => true,
                        Expr::Path(p) => {
                            let n = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>();
                            let n = match n.len() {
                                2 if n[0] == "Self" => format!("{}::{}", self.self_ty, n[1]),
                                _ => n.join("::"),
                            };
                            self.all.iter().any(|(x, f)| *x == n && f.src == self.src) && n.contains("::")
                        }
                        _ => false,
                    };
                    if fun {
                        let mut c = Calls { name: pi.ident.to_string(), f: a.clone(), other: 0, bad: false };
                        c.visit_block_mut(&mut b);
                        if c.other > 0 || c.bad {
                            self.err = Some(format!("function argument of helper {} cannot be inlined", name));
                            return None;
                        }
                        continue;
                    }
                    if let (Expr::Path(p), syn::Type::Reference(r), None) = (&a, &*t.ty, &pi.mutability) {
                        if let (Some(i), true) = (p.path.get_ident(), r.mutability.is_some()) {
                            ren.insert(pi.ident.to_string(), i.to_string());
                            continue;
                        }
                    }
                    self.n += 1;
                    let own = pi.ident.to_string();
                    let fresh = if self.taken.insert(own.clone()) { own } else { format!("vx_a{}_{}", self.n, own) };
                    let id = syn::Ident::new(&fresh, pi.ident.span());
                    let generic = !f.sig.generics.params.is_empty() || t.ty.to_token_stream().to_string().contains("impl ");
                    let ty = &t.ty;
                    let m = &pi.mutability;
                    if generic {
                        lets.push(parse_quote!(let #m #id = #a;));
                    } else {
                        lets.push(parse_quote!(let #m #id: #ty = #a;));
                    }
                    ren.insert(pi.ident.to_string(), fresh);
                } else {
                    let pat = &t.pat;
                    post.push(parse_quote!(let #pat = #a;));
                }
            }
        }
        // locals of the helper must not capture
        let mut l = Locals(vec![]);
        l.visit_block(&b);
        for n in l.0 {
            if n != "self" && !ren.contains_key(&n) && !self.taken.insert(n.clone()) {
                self.n += 1;
                ren.insert(n.clone(), format!("vx_l{}_{}", self.n, n));
            }
        }
        Rename(ren).visit_block_mut(&mut b);
        self.used.push(format!("inline {}", name));
        self.depth += 1;
        self.visit_block_mut(&mut b);
        self.depth -= 1;
        let stmts = &b.stmts;
        let generics: HashSet<String> = f.sig.generics.type_params().map(|p| p.ident.to_string()).collect();
        if let (Ctx::Question, false, syn::ReturnType::Type(_, t)) = (ctx, generics.is_empty(), &f.sig.output) {
            struct G(HashSet<String>);
            impl VisitMut for G {
                fn visit_type_mut(&mut self, t: &mut syn::Type) {
                    if let syn::Type::Path(p) = t {
                        if p.path.get_ident().map_or(false, |i| self.0.contains(&i.to_string())) {
                            *t = parse_quote!(_);
                            return;
                        }
                    }
                    visit_mut::visit_type_mut(self, t);
                }
            }
            let mut t = (**t).clone();
            G(generics).visit_type_mut(&mut t);
            return Some(parse_quote!({ #(#lets)* #(#post)* let vx_r: #t = { #(#stmts)* }; vx_r }));
        }
        Some(parse_quote!({ #(#lets)* #(#post)* #(#stmts)* }))
    }
    fn try_call(&mut self, e: &Expr, ctx: Ctx) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) => {
                if let Some(target) = self.methods.get(&m.method.to_string()).cloned() {
                    let f = self.all.iter().find(|(n, f)| *n == target && f.src == self.src).map(|x| &x.1)?;
                    let mut f = f.clone();
                    if !matches!(f.sig.inputs.first(), Some(syn::FnArg::Receiver(r)) if r.reference.is_none()) {
                        self.err = Some(format!("{} does not take self by value", target));
                        return None;
                    }
                    self.n += 1;
                    let own = format!("vx_self{}", self.n);
                    let mut r = HashMap::new();
                    r.insert("self".to_string(), own.clone());
                    Rename(r).visit_block_mut(&mut f.block);
                    let own = syn::Ident::new(&own, m.method.span());
                    let recv = (*m.receiver).clone();
                    let x = self.body(&f, &target, m.args.iter().cloned().collect(), ctx)?;
                    return Some(parse_quote!({ let #own = #recv; #x }));
                }
                if m.receiver.to_token_stream().to_string() != "self" {
                    return None;
                }
                let name = m.method.to_string();
                let f = self.lookup(&name, true)?;
                self.body(f, &name, m.args.iter().cloned().collect(), ctx)
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let (name, method) = match segs.len() {
                        1 => (segs[0].clone(), false),
                        2 if segs[0] == "Self" || segs[0] == self.self_ty => (segs[1].clone(), true),
                        2 if segs[0] == "self" || segs[0] == "super" => (segs[1].clone(), false),
                        _ => return None,
                    };
                    let f = self.lookup(&name, method)?;
                    if f.sig.inputs.iter().any(|i| matches!(i, syn::FnArg::Receiver(_))) {
                        self.err = Some(format!("helper {} called as a path", name));
                        return None;
                    }
                    return self.body(f, &name, c.args.iter().cloned().collect(), ctx);
                }
                None
            }
            _ => None,
        }
    }
}
impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if let Some(x) = self.try_call(&t.expr, Ctx::Question) {
                *t.expr = x;
                return;
            }
        }
        if let Expr::Return(r) = e {
            if let Some(inner) = &mut r.expr {
                if let Some(x) = self.try_call(inner, Ctx::Tail) {
                    **inner = x;
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(x) = self.try_call(e, Ctx::Plain) {
            *e = x;
        }
    }
}

pub fn method_names(b: &syn::Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            self.0.push(m.method.to_string());
            syn::visit::visit_expr_method_call(self, m)
        }
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    v.0
}

struct Main<'a> {
    renames: HashMap<String, String>,
    err: Option<String>,
    used: Vec<String>,
    _p: std::marker::PhantomData<&'a ()>,
    n: usize,
    kinds: HashMap<String, String>,
    /// head of the return type
    ret: String,
}

fn is_bytes_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, syn::Lit::ByteStr(_)),
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => is_bytes_lit(&u.expr),
        Expr::Index(i) => is_bytes_lit(&i.expr),
        Expr::Reference(r) => is_bytes_lit(&r.expr),
        Expr::Paren(p) => is_bytes_lit(&p.expr),
        _ => false,
    }
}
fn is_str_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => is_str_lit(&u.expr),
        Expr::Paren(p) => is_str_lit(&p.expr),
        _ => false,
    }
}
fn is_slicey(e: &Expr) -> bool {
    match e {
        Expr::Index(i) => matches!(&*i.index, Expr::Range(_)),
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => true,
        Expr::Reference(r) => is_slicey(&r.expr),
        _ => false,
    }
}
fn undref(e: &Expr) -> Expr {
    match e {
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => (*u.expr).clone(),
        Expr::Paren(p) => undref(&p.expr),
        Expr::Reference(r) => undref(&r.expr),
        x => x.clone(),
    }
}
fn args_of(ts: TokenStream) -> Result<Vec<Expr>, String> {
    let p = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
    p.parse2(ts).map(|x| x.into_iter().collect()).map_err(|e| e.to_string())
}

fn ty_head(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => ty_head(&r.elem),
        _ => String::new(),
    }
}
fn multi_token(e: &Expr) -> Option<Vec<Vec<u8>>> {
    match e {
        Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) => {
            let t = lit_tokens(&b.value());
            if t.len() > 1 { Some(t) } else { None }
        }
        _ => None,
    }
}
fn double_deref(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => match &*u.expr {
            Expr::Unary(v) if matches!(v.op, syn::UnOp::Deref(_)) => Some((*v.expr).clone()),
            _ => None,
        },
        Expr::Paren(p) => double_deref(&p.expr),
        _ => None,
    }
}
fn str_index(e: &Expr) -> Option<(Expr, Option<Expr>, Option<Expr>)> {
    match e {
        Expr::Index(i) => match &*i.index {
            Expr::Range(r) => match r.limits {
                syn::RangeLimits::HalfOpen(_) => Some(((*i.expr).clone(), r.start.as_deref().cloned(), r.end.as_deref().cloned())),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}
/// `x.iter().zip(&mut *y)` with a pair pattern
fn zip_of(e: &Expr, pat: &syn::Pat) -> Option<(Expr, Expr, bool, bool, syn::Pat, syn::Pat)> {
    fn side(e: &Expr) -> Option<(Expr, bool)> {
        match e {
            Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter" => Some(((*m.receiver).clone(), false)),
            Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter_mut" => Some(((*m.receiver).clone(), true)),
            Expr::Reference(r) => match &*r.expr {
                Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => Some(((*u.expr).clone(), r.mutability.is_some())),
                x => Some((x.clone(), r.mutability.is_some())),
            },
            Expr::Path(_) => Some((e.clone(), false)),
            _ => None,
        }
    }
    let (p, q) = match pat {
        syn::Pat::Tuple(t) if t.elems.len() == 2 => (t.elems[0].clone(), t.elems[1].clone()),
        _ => return None,
    };
    match e {
        Expr::MethodCall(m) if m.method == "zip" && m.args.len() == 1 => {
            let (x, mx) = side(&m.receiver)?;
            let (y, my) = side(&m.args[0])?;
            Some((x, y, mx, my, p, q))
        }
        _ => None,
    }
}
/// `Option` or `Result`, where the receiver of a combinator tells
/// (a wrong guess does not type-check: the function is then "not re-established")
fn guess_kind(recv: &Expr, kinds: &HashMap<String, String>) -> Option<String> {
    let of_fn = |n: &str| -> Option<String> { kinds.get(&format!("fn {}", n)).cloned() };
    match recv {
        Expr::Path(p) => p.path.get_ident().and_then(|i| kinds.get(&i.to_string()).cloned()),
        Expr::Paren(p) => guess_kind(&p.expr, kinds),
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => {
                let n = p.path.segments.last()?.ident.to_string();
                match n.as_str() {
                    "Some" => Some("Option".into()),
                    "Ok" | "Err" => Some("Result".into()),
                    "from_utf8" | "create_dir" | "create_dir_all" => Some("Result".into()),
                    _ => of_fn(&n),
                }
            }
            _ => None,
        },
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "as_ref" | "as_mut" | "as_deref" | "as_deref_mut" | "cloned" | "copied" | "take" | "map" | "and_then" | "filter" | "or_else" | "or" | "and" => guess_kind(&m.receiver, kinds),
            "ok" | "err" | "pop" | "next" | "first" | "last" | "get" | "find" | "position" | "file_name" | "file_stem" | "extension" | "to_str" | "strip_prefix" | "checked_add" | "checked_sub" | "checked_mul" | "split_once" | "find_byte" => Some("Option".into()),
            "map_err" | "ok_or" | "ok_or_else" | "write_all" | "read" | "write" | "flush" | "parse" | "fill_buf" | "read_to_end" | "read_to_string" | "open" | "metadata" => Some("Result".into()),
            n => of_fn(n),
        },
        _ => None,
    }
}
/// an iterator, by the methods that make one
fn iterates(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "iter" | "iter_mut" | "into_iter" | "drain" | "split" | "splitn" | "rsplit" | "chars" | "bytes" | "lines" | "keys" | "values" | "values_mut" | "char_indices" | "split_whitespace" | "windows" | "chunks" | "components" | "vx_iter" | "rev" | "enumerate" | "zip" | "skip" | "skip_while" | "take_while" | "chain" | "cycle" | "filter_map" | "flat_map" | "sample_iter" => true,
            "map" | "filter" | "take" | "cloned" | "copied" | "inspect" | "by_ref" => iterates(&m.receiver),
            _ => false,
        },
        Expr::Paren(p) => iterates(&p.expr),
        Expr::Range(_) => true,
        _ => false,
    }
}
/// evaluates to a value without doing anything
fn plain(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Paren(p) => plain(&p.expr),
        Expr::Reference(p) => plain(&p.expr),
        Expr::Field(f) => plain(&f.base),
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")) && c.args.iter().all(plain),
        _ => false,
    }
}
/// number of parameters of a closure
fn arity(e: Option<&Expr>) -> Option<usize> {
    match e? {
        Expr::Closure(c) => Some(c.inputs.len()),
        _ => None,
    }
}
/// the kinds of local variables
struct Lets<'k> {
    kinds: &'k mut HashMap<String, String>,
}
impl<'a, 'k> Visit<'a> for Lets<'k> {
    fn visit_local(&mut self, l: &'a syn::Local) {
        let (n, t) = match &l.pat {
            syn::Pat::Ident(p) => (p.ident.to_string(), None),
            syn::Pat::Type(t) => match &*t.pat {
                syn::Pat::Ident(p) => (p.ident.to_string(), Some(ty_head(&t.ty))),
                _ => return,
            },
            _ => return,
        };
        let k = match (t, &l.init) {
            (Some(t), _) => Some(t).filter(|k| k == "Option" || k == "Result"),
            (None, Some(i)) => guess_kind(&i.expr, self.kinds),
            _ => None,
        };
        match k {
            Some(k) => { self.kinds.insert(n, k); }
            None => { self.kinds.remove(&n); }
        }
        syn::visit::visit_local(self, l);
    }
}
enum Piece {
    Lit(Vec<u8>),
    Arg(Expr),
}
fn byte_lits(l: &[u8]) -> Vec<syn::LitInt> {
    l.iter().map(|x| syn::LitInt::new(&format!("{}u8", x), proc_macro2::Span::call_site())).collect()
}
/// cuts a literal at line ends, quotes, dashes and separators: how the source distributes text
/// over literals makes no difference
fn lit_tokens(l: &[u8]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    let mut cur = vec![];
    let mut i = 0;
    while i < l.len() {
        let seps: [&[u8]; 5] = [b"\r\n", b"\"", b"--", b": ", b"; "];
        match seps.iter().find(|s| l[i..].starts_with(s)) {
            Some(s) => {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
                out.push(s.to_vec());
                i += s.len();
            }
            None => {
                cur.push(l[i]);
                i += 1;
            }
        }
    }
    if !cur.is_empty() || out.is_empty() {
        out.push(cur);
    }
    out
}
fn chain_writes(pieces: Vec<Expr>) -> Expr {
    let mut it = pieces.into_iter().rev();
    let mut e = it.next().unwrap();
    for p in it {
        e = parse_quote!(match #p { Ok(_) => #e, Err(vx_e) => Err(vx_e) });
    }
    e
}
/// a format string and its arguments, in order; only `{}`, `{name}` and `{0}` are understood
fn fmt_pieces(a: &[Expr], newline: bool) -> Option<Vec<Piece>> {
    let f = match a.first()? {
        Expr::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => s.value(),
            _ => return None,
        },
        _ => return None,
    };
    let f = if newline { f + "\n" } else { f };
    let mut pieces = vec![];
    let mut lit: Vec<u8> = vec![];
    let pos: Vec<&Expr> = a.iter().skip(1).filter(|e| !matches!(e, Expr::Assign(_))).collect();
    let mut next = 0;
    let cs: Vec<char> = f.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '{' && cs.get(i + 1) == Some(&'{') || cs[i] == '}' && cs.get(i + 1) == Some(&'}') {
            lit.push(cs[i] as u8);
            i += 2;
        } else if cs[i] == '{' {
            let j = (i..cs.len()).find(|j| cs[*j] == '}')?;
            let inner: String = cs[i + 1..j].iter().collect();
            if !lit.is_empty() {
                pieces.push(Piece::Lit(std::mem::take(&mut lit)));
            }
            let arg: Expr = if inner.is_empty() {
                next += 1;
                (*pos.get(next - 1)?).clone()
            } else if let Ok(k) = inner.parse::<usize>() {
                (*pos.get(k)?).clone()
            } else if inner.chars().all(|c| c.is_alphanumeric() || c == '_') {
                let named = a.iter().skip(1).find_map(|x| match x {
                    Expr::Assign(s) if s.left.to_token_stream().to_string() == inner => Some((*s.right).clone()),
                    _ => None,
                });
                match named {
                    Some(x) => x,
                    None => syn::parse_str(&inner).ok()?,
                }
            } else {
                return None;
            };
            pieces.push(Piece::Arg(arg));
            i = j + 1;
        } else {
            let mut b = [0u8; 4];
            lit.extend(cs[i].encode_utf8(&mut b).bytes());
            i += 1;
        }
    }
    if !lit.is_empty() || pieces.is_empty() {
        pieces.push(Piece::Lit(lit));
    }
    Some(pieces)
}

impl<'a> Main<'a> {
    fn note(&mut self, s: &str) {
        self.used.push(s.to_string());
    }
    fn eq_call(&mut self, l: &Expr, r: &Expr) -> Option<Expr> {
        if is_bytes_lit(l) || is_bytes_lit(r) {
            self.note("byte-slice == -> vx_eq");
            let (a, b) = if is_bytes_lit(l) { (r, l) } else { (l, r) };
            let a = undref(a);
            let b = undref(b);
            let b: Expr = if is_bytes_lit(&b) && !matches!(b, Expr::Index(_)) { b } else { parse_quote!(&(#b)) };
            return Some(parse_quote!((#a).vx_eq(#b)));
        }
        if is_str_lit(l) || is_str_lit(r) {
            self.note("str == -> vx_str_eq");
            let a = undref(l);
            let b = undref(r);
            return Some(parse_quote!(vx_str_eq(&(#a), &(#b))));
        }
        None
    }
    /// `x.iter().find(closure)` and the like: a loop over the iterator
    fn search(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if !matches!(name.as_str(), "find" | "any" | "all" | "position") || m.args.len() != 1 {
            return None;
        }
        let c = match m.args.first()? {
            Expr::Closure(c) if c.inputs.len() == 1 => c,
            _ => return None,
        };
        let it = match &*m.receiver {
            Expr::MethodCall(r) if r.method == "iter" && r.args.is_empty() => &m.receiver,
            _ => return None,
        };
        let mut probe = Flow { ret_ok: false, ret_err: false, question: false, brk: false };
        probe.visit_expr(&c.body);
        if probe.ret_ok || probe.ret_err || probe.question {
            return None;
        }
        let k = self.n;
        self.n += 1;
        let itn = syn::Ident::new(&format!("vx_it{}", k), proc_macro2::Span::call_site());
        let p = match c.inputs.first()? {
            syn::Pat::Type(t) => (*t.pat).clone(),
            x => x.clone(),
        };
        let body = &c.body;
        self.note(&format!("iter().{}(closure) -> loop over next()", name));
        Some(match name.as_str() {
            "find" => parse_quote!({
                let mut #itn = vx_into_iter(#it);
                let mut vx_found = vx_none_of(&#itn);
                loop { match #itn.next() { Some(vx_x) => { let #p = &vx_x; if #body { vx_found = Some(vx_x); break; } } None => break } }
                vx_found
            }),
            "any" => parse_quote!({
                let mut #itn = vx_into_iter(#it);
                let mut vx_found = false;
                loop { match #itn.next() { Some(vx_x) => { let #p = vx_x; if #body { vx_found = true; break; } } None => break } }
                vx_found
            }),
            "all" => parse_quote!({
                let mut #itn = vx_into_iter(#it);
                let mut vx_found = true;
                loop { match #itn.next() { Some(vx_x) => { let #p = vx_x; if !(#body) { vx_found = false; break; } } None => break } }
                vx_found
            }),
            _ => parse_quote!({
                let mut #itn = vx_into_iter(#it);
                let mut vx_found = None;
                let mut vx_n = 0;
                loop { match #itn.next() { Some(vx_x) => { let #p = vx_x; if #body { vx_found = Some(vx_n); break; } vx_n += 1; } None => break } }
                vx_found
            }),
        })
    }
    /// `map.values().map(Vec::len).sum()`
    fn sum_lens(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        if m.method != "sum" || !m.args.is_empty() {
            return None;
        }
        let mp = match &*m.receiver {
            Expr::MethodCall(r) if r.method == "map" && r.args.len() == 1 => r,
            _ => return None,
        };
        let vs = match &*mp.receiver {
            Expr::MethodCall(r) if r.method == "values" && r.args.is_empty() => r,
            _ => return None,
        };
        let len = match mp.args.first()? {
            Expr::Path(p) => p.path.segments.last()?.ident == "len",
            Expr::Closure(c) if c.inputs.len() == 1 => match (c.inputs.first()?, &*c.body) {
                (syn::Pat::Ident(p), Expr::MethodCall(b)) if b.method == "len" && b.args.is_empty() => matches!(&*b.receiver, Expr::Path(x) if x.path.is_ident(&p.ident)),
                _ => false,
            },
            _ => false,
        };
        if !len {
            return None;
        }
        self.note("values().map(Vec::len).sum() -> vx_sum_lens");
        let h = &vs.receiver;
        Some(parse_quote!(vx_sum_lens(&(#h))))
    }
    /// iterators over strings that end at once
    fn str_iter(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let inner = match &*m.receiver {
            Expr::MethodCall(i) if m.args.is_empty() => i,
            _ => return None,
        };
        let x = &inner.receiver;
        match (inner.method.to_string().as_str(), m.method.to_string().as_str(), inner.args.len()) {
            ("chars", "count", 0) => {
                self.note("chars().count() -> vx_char_count");
                Some(parse_quote!(#x.vx_char_count()))
            }
            ("split", "next", 1) if !matches!(inner.args[0], Expr::Closure(_)) => {
                let p = &inner.args[0];
                self.note("split(p).next() -> vx_split_first");
                Some(parse_quote!(#x.vx_split_first(#p)))
            }
            _ => None,
        }
    }
    /// `recv.comb(closure)`
    fn comb(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if name == "ok" && m.args.is_empty() && self.renames.contains_key("comb:ok") {
            let recv = &m.receiver;
            self.note("ok() -> match");
            return Some(parse_quote!(match #recv { Ok(vx_ok) => Some(vx_ok), Err(_vx_e) => None }));
        }
        let last = m.args.last()?;
        let recv = &m.receiver;
        let key = format!("comb:{}", name);
        let kind = self.renames.get(&key).cloned();
        let kind = match (name.as_str(), kind) {
            ("map_err", _) => "Result".to_string(),
            ("ok_or_else", _) => "Option".to_string(),
            ("map_or_else", _) => guess_kind(recv, &self.kinds).unwrap_or_else(|| "Option".to_string()),
            (_, Some(k)) => guess_kind(recv, &self.kinds).unwrap_or(k),
            ("or_else" | "unwrap_or_else", None) => match (guess_kind(recv, &self.kinds), arity(Some(last))) {
                (_, Some(0)) => "Option".to_string(),
                (_, Some(_)) => "Result".to_string(),
                (Some(k), _) => k,
                _ => return None,
            },
            ("then" | "then_some", None) => "bool".to_string(),
            ("is_some_and" | "is_none_or", None) => "Option".to_string(),
            ("is_ok_and", None) => "Result".to_string(),
            ("map" | "and_then" | "filter" | "map_or" | "or" | "inspect", None) => match guess_kind(recv, &self.kinds) {
                Some(k) => k,
                None if iterates(recv) => return None,
                None => "Option".to_string(),
            },
            _ => return None,
        };
        let apply = |s: &mut Self, arg_idx: Option<()>| -> Option<(Option<syn::Pat>, Expr)> {
            let _ = arg_idx;
            match last {
                Expr::Closure(c) => {
                    let mut probe = Flow { ret_ok: false, ret_err: false, question: false, brk: false };
                    probe.visit_expr(&c.body);
                    if probe.ret_ok || probe.ret_err || probe.question {
                        s.err = Some(format!("closure of {} returns early", name));
                        return None;
                    }
                    let p = c.inputs.first().cloned();
                    let p = p.map(|p| match p {
                        syn::Pat::Type(t) => *t.pat,
                        x => x,
                    });
                    Some((p, (*c.body).clone()))
                }
                Expr::Path(f) => {
                    let v: syn::Pat = parse_quote!(vx_v);
                    if matches!(name.as_str(), "unwrap_or_else" | "ok_or_else" | "or_else" | "then") && kind != "Result" {
                        Some((None, parse_quote!(#f())))
                    } else {
                        Some((Some(v), parse_quote!(#f(vx_v))))
                    }
                }
                _ => None,
            }
        };
        let r: Expr = match (name.as_str(), kind.as_str()) {
            ("map_err", _) => {
                let (p, b) = apply(self, None)?;
                parse_quote!(match #recv { Ok(vx_ok) => Ok(vx_ok), Err(#p) => Err(#b) })
            }
            ("map", "Result") => {
                let (p, b) = apply(self, None)?;
                parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) })
            }
            ("map", "Option") => {
                let (p, b) = apply(self, None)?;
                parse_quote!(match #recv { Some(#p) => Some(#b), None => None })
            }
            ("and_then", "Result") => {
                let (p, b) = apply(self, None)?;
                parse_quote!(match #recv { Ok(#p) => #b, Err(vx_e) => Err(vx_e) })
            }
            ("and_then", "Option") => {
                let (p, b) = apply(self, None)?;
                parse_quote!(match #recv { Some(#p) => #b, None => None })
            }
            ("or_else", "Result") => {
                let (p, b) = apply(self, None)?;
                parse_quote!(match #recv { Ok(vx_ok) => Ok(vx_ok), Err(#p) => #b })
            }
            ("unwrap_or_else", "Result") => {
                let (p, b) = apply(self, None)?;
                parse_quote!(match #recv { Ok(vx_ok) => vx_ok, Err(#p) => #b })
            }
            ("unwrap_or_else", "Option") => {
                let (_, b) = apply(self, None)?;
                parse_quote!(match #recv { Some(vx_s) => vx_s, None => #b })
            }
            ("ok_or_else", _) => {
                let (_, b) = apply(self, None)?;
                parse_quote!(match #recv { Some(vx_s) => Ok(vx_s), None => Err(#b) })
            }
            ("map_or", "Option") => {
                let d = m.args.first()?;
                let (p, b) = apply(self, None)?;
                parse_quote!(match #recv { Some(#p) => #b, None => #d })
            }
            ("map_or_else", k) => {
                let d = match m.args.first()? {
                    Expr::Closure(c) => {
                        let mut probe = Flow { ret_ok: false, ret_err: false, question: false, brk: false };
                        probe.visit_expr(&c.body);
                        if probe.ret_ok || probe.ret_err || probe.question {
                            self.err = Some("closure of map_or_else returns early".into());
                            return None;
                        }
                        (c.inputs.first().cloned(), (*c.body).clone())
                    }
                    _ => return None,
                };
                let (p, b) = apply(self, None)?;
                let e = d.1;
                match (k, d.0) {
                    ("Option", None) => parse_quote!(match #recv { Some(#p) => #b, None => #e }),
                    ("Result", Some(ep)) => parse_quote!(match #recv { Ok(#p) => #b, Err(#ep) => #e }),
                    _ => return None,
                }
            }
            ("filter", "Option") => {
                let (p, b) = apply(self, None)?;
                match last {
                    Expr::Closure(_) if matches!(p, Some(syn::Pat::Reference(_))) => {
                        let p = match p { Some(syn::Pat::Reference(r)) => r.pat, _ => unreachable!() };
                        parse_quote!(match #recv { Some(vx_it) => { let vx_keep = { let #p = vx_it; #b }; if vx_keep { Some(vx_it) } else { None } }, None => None })
                    }
                    Expr::Closure(_) => parse_quote!(match #recv { Some(vx_it) => { let vx_keep = { let #p = &vx_it; #b }; if vx_keep { Some(vx_it) } else { None } }, None => None }),
                    f => parse_quote!(match #recv { Some(vx_it) => if #f(&vx_it) { Some(vx_it) } else { None }, None => None }),
                }
            }
            ("or_else", "Option") => {
                let (_, b) = apply(self, None)?;
                parse_quote!(match #recv { Some(vx_s) => Some(vx_s), None => #b })
            }
            // (the argument is evaluated only where it is used: arguments without effects only)
            ("or", "Option") if plain(last) => parse_quote!(match #recv { Some(vx_s) => Some(vx_s), None => #last }),
            ("then", "bool") => {
                let (_, b) = apply(self, None)?;
                parse_quote!(if #recv { Some(#b) } else { None })
            }
            ("then_some", "bool") if plain(last) => parse_quote!(if #recv { Some(#last) } else { None }),
            ("map_or", "Result") => {
                let d = m.args.first()?;
                let (p, b) = apply(self, None)?;
                parse_quote!(match #recv { Ok(#p) => #b, Err(_vx_e) => #d })
            }
            ("is_none_or", "Option") => {
                let (p, b) = apply(self, None)?;
                parse_quote!(match #recv { Some(#p) => #b, None => true })
            }
            ("is_ok_and", "Result") => {
                let (p, b) = apply(self, None)?;
                parse_quote!(match #recv { Ok(#p) => #b, Err(_vx_e) => false })
            }
            ("is_some_and", "Option") => {
                let (p, b) = apply(self, None)?;
                parse_quote!(match #recv { Some(#p) => #b, None => false })
            }
            _ => return None,
        };
        self.note(&format!("{}(closure) -> match", name));
        Some(r)
    }
    fn macro_expr(&mut self, m: &syn::Macro) -> Option<Expr> {
        let n = mac_name(m);
        match n.as_str() {
            "debug_assert" | "assert" => {
                let a = args_of(m.tokens.clone()).ok()?;
                let e = a.first()?;
                self.note("assert! -> checked obligation");
                Some(parse_quote!(vx_debug_assert(#e)))
            }
            "debug_assert_eq" | "assert_eq" | "debug_assert_ne" | "assert_ne" => {
                let a = args_of(m.tokens.clone()).ok()?;
                let (x, y) = (a.first()?, a.get(1)?);
                self.note("assert_eq! -> checked obligation");
                let eq: Expr = if is_slicey(x) || is_slicey(y) || is_bytes_lit(x) || is_bytes_lit(y) {
                    let x = undref(x);
                    parse_quote!((#x).vx_eq(&(#y)))
                } else {
                    parse_quote!((#x) == (#y))
                };
                if n.ends_with("ne") {
                    Some(parse_quote!(vx_debug_assert(!(#eq))))
                } else {
                    Some(parse_quote!(vx_debug_assert(#eq)))
                }
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                self.note("panic! -> obligation that it is unreachable");
                Some(parse_quote!(vx_panic()))
            }
            "format" if self.renames.contains_key("format!") => {
                let a = args_of(m.tokens.clone()).ok()?;
                let mut e: Expr = parse_quote!(vx_string());
                for p in fmt_pieces(&a, false)? {
                    match p {
                        Piece::Lit(l) => {
                            for l in lit_tokens(&l) {
                                let l = byte_lits(&l);
                                e = parse_quote!(vx_cat_lit(#e, &[#(#l),*]))
                            }
                        }
                        Piece::Arg(arg) => e = parse_quote!(vx_cat_arg(#e, &(#arg))),
                    };
                }
                self.note("format! -> concatenation of its pieces");
                Some(e)
            }
            "format" => {
                let a = args_of(m.tokens.clone()).ok()?;
                let rest = a.iter().skip(1).map(|e| match e {
                    Expr::Assign(x) => (*x.right).clone(),
                    x => x.clone(),
                });
                self.note("format! -> unspecified string");
                Some(parse_quote!({ #(vx_use(&(#rest));)* vx_format() }))
            }
            "cfg" => {
                self.note("cfg! -> either value");
                Some(parse_quote!(vx_nondet_bool()))
            }
            "write" | "writeln" => {
                let a = args_of(m.tokens.clone()).ok()?;
                let w = a.first()?.clone();
                let mut pieces: Vec<Expr> = vec![];
                for p in fmt_pieces(&a[1..], n == "writeln")? {
                    match p {
                        Piece::Lit(l) => {
                            for l in lit_tokens(&l) {
                                let l = byte_lits(&l);
                                pieces.push(parse_quote!(#w.write_all(&[#(#l),*])))
                            }
                        }
                        Piece::Arg(arg) => pieces.push(parse_quote!(#w.vx_write_arg(&(#arg)))),
                    }
                }
                self.note("write! -> one write per literal token and argument");
                Some(chain_writes(pieces))
            }
            "vec" => {
                let a = args_of(m.tokens.clone()).ok()?;
                if a.is_empty() {
                    return None;
                }
                self.note("vec![..] of elements -> call with an array");
                Some(parse_quote!(vx_vec([#(#a),*])))
            }
            _ => None,
        }
    }
}

/// An expression that only reads: literals, paths, fields, comparisons and boolean operators. Evaluating it
/// early or more often is not observable.
fn reads_only(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Field(f) => reads_only(&f.base),
        Expr::Paren(p) => reads_only(&p.expr),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && reads_only(&u.expr),
        Expr::Binary(b) => {
            use syn::BinOp::*;
            matches!(b.op, Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) | And(_) | Or(_))
                && reads_only(&b.left)
                && reads_only(&b.right)
        }
        _ => false,
    }
}

impl<'a> Main<'a> {
    /// Guards which read fields through `self` become values that are matched too: the verifier loses track of
    /// the final value of `self` behind a guard. The scrutinee is moved by this; where it is used again
    /// afterwards the result does not compile, and the function is reported as not extracted.
    fn hoist_guards(&mut self, m: &syn::ExprMatch) -> Option<Expr> {
        struct Names(Vec<syn::Ident>);
        impl<'b> syn::visit::Visit<'b> for Names {
            fn visit_pat_ident(&mut self, i: &'b syn::PatIdent) {
                self.0.push(i.ident.clone());
                syn::visit::visit_pat_ident(self, i);
            }
        }
        struct Uses(Vec<String>);
        impl<'b> syn::visit::Visit<'b> for Uses {
            fn visit_path(&mut self, p: &'b syn::Path) {
                if let Some(i) = p.get_ident() {
                    self.0.push(i.to_string());
                }
            }
        }
        use syn::visit::Visit;
        let scrut = match &*m.expr {
            Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) => m.expr.clone(),
            _ => return None,
        };
        let mut m = m.clone();
        // guards that cannot be moved stay, and then nothing is done
        let mut guards: Vec<Option<Expr>> = vec![];
        let mut reads_self = false;
        for a in m.arms.iter() {
            let g = match &a.guard {
                Some((_, g)) => g.clone(),
                None => {
                    guards.push(None);
                    continue;
                }
            };
            let mut names = Names(vec![]);
            names.visit_pat(&a.pat);
            let mut uses = Uses(vec![]);
            uses.visit_expr(&g);
            if !reads_only(&g) || names.0.iter().any(|n| uses.0.iter().any(|u| n == u)) {
                return None;
            }
            reads_self |= uses.0.iter().any(|u| u == "self");
            guards.push(Some(*g));
        }
        if !reads_self {
            return None;
        }
        self.note("match with guards over fields -> match on a tuple with the guards");
        let n = guards.iter().flatten().count();
        let mut k = 0;
        for (a, g) in m.arms.iter_mut().zip(guards.iter()) {
            let pat = a.pat.clone();
            let mut rest: Vec<syn::Pat> = vec![parse_quote!(_); n];
            if g.is_some() {
                rest[k] = parse_quote!(true);
                k += 1;
            }
            a.pat = parse_quote!((#pat, #(#rest),*));
            a.guard = None;
        }
        let gs = guards.into_iter().flatten();
        m.expr = parse_quote!((#scrut, #(#gs),*));
        Some(Expr::Match(m))
    }
}

impl<'a> VisitMut for Main<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                let semi = m.semi_token;
                let e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
                *s = Stmt::Expr(e, semi);
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if self.renames.contains_key("str-index") && str_index(&m.receiver).is_some() {
                let x = &m.receiver;
                m.receiver = Box::new(parse_quote!((&#x)));
            }
        }
        // outside in: forms that must be seen before their children are rewritten
        loop {
            let new: Option<Expr> = match e {
                Expr::Macro(m) => self.macro_expr(&m.mac.clone()),
                Expr::Binary(b) => match b.op {
                    syn::BinOp::Eq(_) => self.eq_call(&b.left.clone(), &b.right.clone()),
                    syn::BinOp::Ne(_) => self.eq_call(&b.left.clone(), &b.right.clone()).map(|x| parse_quote!(!(#x))),
                    _ => None,
                },
                Expr::Match(m) => {
                    fn lit_pat(p: &syn::Pat) -> Option<&syn::ExprLit> {
                        match p {
                            syn::Pat::Lit(l) => Some(l),
                            _ => None,
                        }
                    }
                    let has = |f: &dyn Fn(&syn::Lit) -> bool| {
                        m.arms.iter().any(|a| match &a.pat {
                            syn::Pat::Or(o) => o.cases.iter().any(|c| lit_pat(c).map_or(false, |l| f(&l.lit))),
                            p => lit_pat(p).map_or(false, |l| f(&l.lit)),
                        })
                    };
                    let bytes = has(&|l| matches!(l, syn::Lit::ByteStr(_)));
                    let strs = has(&|l| matches!(l, syn::Lit::Str(_)));
                    if bytes || strs {
                        self.used.push("match on literals -> if chain".into());
                        let scrut = &m.expr;
                        let mut chain: Option<Expr> = None;
                        let mut bad = m.arms.iter().any(|a| a.guard.is_some());
                        for a in m.arms.iter().rev() {
                            let body = &a.body;
                            let pats: Vec<&syn::Pat> = match &a.pat {
                                syn::Pat::Or(o) => o.cases.iter().collect(),
                                p => vec![p],
                            };
                            let mut cond: Option<Expr> = None;
                            let mut wild: Option<Option<syn::Ident>> = None;
                            for p in pats {
                                match p {
                                    syn::Pat::Lit(l) => {
                                        let l = &l.lit;
                                        let c: Expr = if bytes { parse_quote!(vx_m.vx_eq(#l)) } else { parse_quote!(vx_str_eq(vx_m, #l)) };
                                        cond = Some(match cond {
                                            Some(o) => parse_quote!(#o || #c),
                                            None => c,
                                        });
                                    }
                                    syn::Pat::Wild(_) => wild = Some(None),
                                    syn::Pat::Ident(i) if i.subpat.is_none() => wild = Some(Some(i.ident.clone())),
                                    _ => bad = true,
                                }
                            }
                            chain = match (cond, wild, chain) {
                                (_, Some(None), _) => Some(parse_quote!({ #body })),
                                (_, Some(Some(id)), _) => Some(parse_quote!({ let #id = vx_m; #body })),
                                (Some(c), _, Some(rest)) => {
                                    let rest: Expr = match rest {
                                        Expr::If(_) | Expr::Block(_) => rest,
                                        r => parse_quote!({ #r }),
                                    };
                                    Some(parse_quote!(if #c { #body } else #rest))
                                }
                                (Some(c), _, None) => Some(parse_quote!(if #c { #body } else { vx_panic() })),
                                _ => None,
                            };
                        }
                        if bad {
                            self.err = Some("match on literals with a guard".into());
                            None
                        } else {
                            chain.map(|c| parse_quote!({ let vx_m = #scrut; #c }))
                        }
                    } else {
                        self.hoist_guards(m)
                    }
                }
                Expr::ForLoop(f) => {
                    let k = self.n;
                    self.n += 1;
                    let label = &f.label;
                    let pat = &f.pat;
                    let body = &f.body.stmts;
                    match &*f.expr {
                        Expr::Range(r) if r.end.is_some() && r.start.is_some() && matches!(r.limits, syn::RangeLimits::HalfOpen(_)) => {
                            let (a, b) = (r.start.as_ref().unwrap(), r.end.as_ref().unwrap());
                            let i = syn::Ident::new(&format!("vx_i{}", k), proc_macro2::Span::call_site());
                            let en = syn::Ident::new(&format!("vx_end{}", k), proc_macro2::Span::call_site());
                            self.used.push("for over a range -> loop".into());
                            Some(parse_quote!({
                                let mut #i = #a;
                                let #en = #b;
                                #label loop {
                                    if !(#i < #en) { break; }
                                    let #pat = #i;
                                    #i += 1;
                                    #(#body)*
                                }
                            }))
                        }
                        x if zip_of(x, pat).is_some() => {
                            let (x, y, mx, my, p, q) = zip_of(x, pat).unwrap();
                            let i = syn::Ident::new(&format!("vx_i{}", k), proc_macro2::Span::call_site());
                            let en = syn::Ident::new(&format!("vx_end{}", k), proc_macro2::Span::call_site());
                            let rx: Expr = if mx { parse_quote!(&mut #x[#i]) } else { parse_quote!(&#x[#i]) };
                            let ry: Expr = if my { parse_quote!(&mut #y[#i]) } else { parse_quote!(&#y[#i]) };
                            self.used.push("for over a zip of slices -> loop over indices".into());
                            Some(parse_quote!({
                                let mut #i = 0;
                                let #en = vx_min_len(#x.len(), #y.len());
                                #label loop {
                                    if !(#i < #en) { break; }
                                    let #p = #rx;
                                    let #q = #ry;
                                    #i += 1;
                                    #(#body)*
                                }
                            }))
                        }
                        x => {
                            let it = syn::Ident::new(&format!("vx_it{}", k), proc_macro2::Span::call_site());
                            self.used.push("for -> loop over next()".into());
                            Some(parse_quote!({
                                let mut #it = vx_into_iter(#x);
                                #label loop {
                                    match #it.next() { Some(#pat) => { #(#body)* } None => break }
                                }
                            }))
                        }
                    }
                }
                Expr::While(w) => match &*w.cond {
                    Expr::Let(l) => {
                        let label = &w.label;
                        let (p, x) = (&l.pat, &l.expr);
                        let body = &w.body.stmts;
                        self.used.push("while let -> loop".into());
                        Some(parse_quote!(#label loop { match #x { #p => { #(#body)* } _ => break } }))
                    }
                    _ => None,
                },
                Expr::MethodCall(m) if m.method == "write_all" && m.args.len() == 1 && multi_token(&m.args[0]).is_some() => {
                    let w = &m.receiver;
                    let ls = multi_token(&m.args[0]).unwrap();
                    let ps = ls.iter().map(|l| {
                        let l = byte_lits(l);
                        parse_quote!(#w.write_all(&[#(#l),*]))
                    });
                    self.used.push("write_all(literal) -> one write per token".into());
                    Some(chain_writes(ps.collect()))
                }
                Expr::MethodCall(m) => {
                    let m = m.clone();
                    self.search(&m).or_else(|| self.sum_lens(&m)).or_else(|| self.str_iter(&m)).or_else(|| self.comb(&m))
                }
                Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) if self.renames.contains_key("str-lit") => {
                    let l = byte_lits(l.value().as_bytes());
                    self.used.push("string literal -> its bytes".into());
                    Some(parse_quote!(vx_lit(&[#(#l),*])))
                }
                Expr::Reference(r) if r.mutability.is_none() && self.renames.contains_key("&**") && double_deref(&r.expr).is_some() => {
                    let x = double_deref(&r.expr).unwrap();
                    self.used.push("&**x -> vx_deref".into());
                    Some(parse_quote!((#x).vx_deref()))
                }
                Expr::Reference(r) if self.renames.contains_key("str-index") && str_index(&r.expr).is_some() => {
                    let (x, a, b) = str_index(&r.expr).unwrap();
                    self.used.push("&s[a..b] on strings -> vx_str_slice".into());
                    let a: Expr = a.unwrap_or_else(|| parse_quote!(0));
                    Some(match b {
                        Some(b) => parse_quote!(vx_str_slice(#x, #a, #b)),
                        None => parse_quote!(vx_str_from(#x, #a)),
                    })
                }
                Expr::Try(t) if self.renames.contains_key("?") && self.ret != "Option" => {
                    let x = &t.expr;
                    self.used.push("? -> match with conversion of the error".into());
                    Some(parse_quote!(match #x { Ok(vx_ok) => vx_ok, Err(vx_e) => return Err(vx_conv(vx_e)) }))
                }
                _ => None,
            };
            match new {
                Some(x) => *e = x,
                None => break,
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if n == "push_str" && self.renames.contains_key("push_str") {
                if let Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. })) = m.args.first() {
                    let l = byte_lits(l.value().as_bytes());
                    let recv = &m.receiver;
                    *e = parse_quote!(#recv.vx_push_lit(&[#(#l),*]));
                    return;
                }
            }
            if let Some(r) = self.renames.get(&n).or_else(|| self.renames.get(&format!(".{}", n))) {
                m.method = syn::Ident::new(r, m.method.span());
            }
        }
        if let Expr::Call(c) = e {
            if let (Expr::Path(p), true) = (&*c.func, c.args.is_empty()) {
                let s = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>();
                let n = s.len();
                if n >= 2 && ["u8", "u16", "u32", "u64", "usize", "i32", "i64"].contains(&s[n - 2].as_str()) && (s[n - 1] == "max_value" || s[n - 1] == "min_value") {
                    let t = syn::Ident::new(&s[n - 2], proc_macro2::Span::call_site());
                    *e = if s[n - 1] == "max_value" { parse_quote!(#t::MAX) } else { parse_quote!(#t::MIN) };
                    return;
                }
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &mut *c.func {
                let mut q = p.path.clone();
                strip_path(&mut q);
                let s = q.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                if let Some(r) = self.renames.get(&s) {
                    p.path = syn::parse_str(r).unwrap();
                }
            }
        }
    }
}

/// `x.and_then(|p| ..)` as the function's result: a `return` in the closure is one of the function
fn tail_and_then(e: &mut Expr, ret: &str) -> bool {
    match e {
        Expr::MethodCall(m) if m.method == "and_then" && m.args.len() == 1 => {
            let c = match &m.args[0] {
                Expr::Closure(c) if c.inputs.len() == 1 => c,
                _ => return false,
            };
            let f = {
                let mut f = Flow { ret_ok: false, ret_err: false, question: false, brk: false };
                f.visit_expr(&c.body);
                f
            };
            if !(f.ret_ok || f.ret_err || f.question) {
                return false;
            }
            let (p, b, r) = (&c.inputs[0], &c.body, &m.receiver);
            let p = match p {
                syn::Pat::Type(t) => &*t.pat,
                x => x,
            };
            *e = match ret {
                "Option" => parse_quote!(match #r { Some(#p) => #b, None => None }),
                "Result" => parse_quote!(match #r { Ok(#p) => #b, Err(vx_e) => Err(vx_e) }),
                _ => return false,
            };
            true
        }
        Expr::Block(b) => match b.block.stmts.last_mut() {
            Some(Stmt::Expr(x, None)) => tail_and_then(x, ret),
            _ => false,
        },
        Expr::If(i) => {
            let mut r = match i.then_branch.stmts.last_mut() {
                Some(Stmt::Expr(x, None)) => tail_and_then(x, ret),
                _ => false,
            };
            if let Some((_, x)) = &mut i.else_branch {
                r |= tail_and_then(x, ret);
            }
            r
        }
        Expr::Match(m) => {
            let mut r = false;
            for a in m.arms.iter_mut() {
                r |= tail_and_then(&mut a.body, ret);
            }
            r
        }
        _ => false,
    }
}
/// Patterns that go through references: the verifier knows only the short form without `&` and `ref`. Left alone
/// where something is copied out.
struct RefPats {
    used: bool,
}
impl VisitMut for RefPats {
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        struct Binds {
            plain: bool,
        }
        impl<'a> Visit<'a> for Binds {
            fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
                if i.by_ref.is_none() && !i.ident.to_string().starts_with(|c: char| c.is_uppercase()) {
                    self.plain = true
                }
                syn::visit::visit_pat_ident(self, i);
            }
            fn visit_pat_reference(&mut self, _: &'a syn::PatReference) {
                self.plain = true
            }
        }
        struct Strip;
        impl VisitMut for Strip {
            fn visit_pat_ident_mut(&mut self, i: &mut syn::PatIdent) {
                i.by_ref = None;
                visit_mut::visit_pat_ident_mut(self, i);
            }
        }
        if let syn::Pat::Reference(_) = p {
            let mut inner: &syn::Pat = p;
            while let syn::Pat::Reference(r) = inner {
                if r.mutability.is_some() {
                    return;
                }
                inner = &r.pat;
            }
            if matches!(inner, syn::Pat::Tuple(_) | syn::Pat::TupleStruct(_) | syn::Pat::Struct(_)) {
                let mut b = Binds { plain: false };
                b.visit_pat(inner);
                if !b.plain {
                    let mut q = inner.clone();
                    Strip.visit_pat_mut(&mut q);
                    *p = q;
                    self.used = true;
                    return;
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
}
struct Mark {
    n: usize,
}
impl VisitMut for Mark {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => {
                let n = syn::LitInt::new(&self.n.to_string(), proc_macro2::Span::call_site());
                self.n += 1;
                w.body.stmts.insert(0, parse_quote!(vx_loop!(#n);));
            }
            Expr::Loop(w) => {
                let n = syn::LitInt::new(&self.n.to_string(), proc_macro2::Span::call_site());
                self.n += 1;
                w.body.stmts.insert(0, parse_quote!(vx_loop!(#n);));
            }
            Expr::ForLoop(_) => self.n += 1,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub struct Before<'b> {
    pub anchors: &'b [(String, usize)],
    counts: HashMap<String, usize>,
}
impl<'b> Before<'b> {
    fn calls(s: &Stmt) -> Vec<String> {
        struct V(Vec<String>);
        impl<'a> Visit<'a> for V {
            fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
                syn::visit::visit_expr_method_call(self, m);
                self.0.push(m.method.to_string());
            }
            fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
                syn::visit::visit_expr_call(self, c);
                if let Expr::Path(p) = &*c.func {
                    self.0.push(p.path.segments.last().unwrap().ident.to_string());
                }
            }
            fn visit_block(&mut self, _: &'a syn::Block) {}
            fn visit_expr_match(&mut self, m: &'a syn::ExprMatch) {
                self.visit_expr(&m.expr);
            }
        }
        let mut v = V(vec![]);
        match s {
            Stmt::Expr(Expr::Return(_), _) => v.0.push("return".into()),
            _ => {}
        }
        v.visit_stmt(s);
        v.0
    }
}
impl<'b> VisitMut for Before<'b> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out: Vec<Stmt> = vec![];
        for mut s in b.stmts.drain(..) {
            for c in Self::calls(&s) {
                let k = *self.counts.get(&c).unwrap_or(&0);
                self.counts.insert(c.clone(), k + 1);
                for (i, (n, idx)) in self.anchors.iter().map(|x| x).enumerate() {
                    if *n == c && *idx == k {
                        let l = syn::LitInt::new(&i.to_string(), proc_macro2::Span::call_site());
                        out.push(parse_quote!(vx_before!(#l);));
                    }
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }
}

impl<'a> Xform<'a> {
    pub fn new(macros: &'a Macros, renames: &'a HashMap<String, String>, known: &'a HashSet<String>, all: &'a [(String, Found)], byref: &'a HashMap<String, HashSet<usize>>) -> Self {
        Xform { byref, macros, renames, known, all }
    }

    pub fn function(
        &mut self,
        f: &Found,
        baseline: Option<&syn::Signature>,
        locals: Option<&[String]>,
        rename: &[(String, String)],
        before: &[(String, usize)],
        self_ty: &str,
        opts: &FnOpts,
    ) -> Result<Out, String> {
        let mut block = f.block.clone();
        let mut used = vec![];
        let mut ex = Expand { macros: self.macros, local: local_macros(&block), err: None, used: vec![], depth: 0 };
        ex.visit_block_mut(&mut block);
        used.extend(ex.used);
        if let Some(e) = ex.err {
            return Err(e);
        }
        if !opts.callables.is_empty() {
            Callables(opts.callables.iter().cloned().collect()).visit_block_mut(&mut block);
            used.push("call of a function value -> vx_call".into());
        }
        if !opts.closures.is_empty() {
            let outer = outer_names(f, &block);
            let mut err = None;
            let mut seen = 0;
            Closures {
                n: 0,
                f: &mut |k, e| {
                    let (env, want) = match opts.closures.iter().find(|c| c.0 == k) {
                        Some(c) => (&c.1, &c.2),
                        None => return,
                    };
                    seen += 1;
                    let c = match e {
                        Expr::Closure(c) => c.clone(),
                        _ => return,
                    };
                    match match_captures(&captured(&c, &outer), want) {
                        Ok(caps) => {
                            let env = syn::Ident::new(env, proc_macro2::Span::call_site());
                            let fields = caps.iter().map(|(w, a, m)| -> syn::FieldValue {
                                let (w, id) = (syn::Ident::new(w, proc_macro2::Span::call_site()), syn::Ident::new(a, proc_macro2::Span::call_site()));
                                match (opts.byref.contains(a), m) {
                                    (true, _) => parse_quote!(#w: &mut *#id),
                                    (false, true) => parse_quote!(#w: &mut #id),
                                    (false, false) => parse_quote!(#w: &#id),
                                }
                            });
                            *e = parse_quote!(#env { #(#fields),* });
                        }
                        Err(x) => err = Some(x),
                    }
                },
            }
            .visit_block_mut(&mut block);
            if let Some(e) = err {
                return Err(e);
            }
            if seen != opts.closures.len() {
                return Err("fewer closures than in the contract".into());
            }
            used.push("closure -> environment struct with the closure's body as a method".into());
        }
        let mut br = ByRef { table: self.byref, own: &opts.byref, used: false };
        br.visit_block_mut(&mut block);
        if br.used || !opts.byref.is_empty() {
            used.push("generic parameter by value -> by &mut".into());
        }
        let mut l = Locals(vec![]);
        l.visit_block(&block);
        let mut taken: HashSet<String> = l.0.into_iter().collect();
        taken.extend(params(&f.sig));
        if let Some(b) = baseline {
            taken.extend(params(b));
        }
        let mut inl = Inline { known: self.known, all: self.all, src: f.src.clone(), self_ty: self_ty.to_string(), macros: self.macros, err: None, used: vec![], depth: 0, n: 0, taken, conv: rename.iter().any(|(a, _)| a == "?"), methods: rename.iter().filter_map(|(a, b)| a.strip_prefix("inline:").map(|m| (m.to_string(), b.clone()))).collect() };
        // tail position
        if let Some(Stmt::Expr(e, None)) = block.stmts.last_mut() {
            if let Some(x) = inl.try_call(e, Ctx::Tail) {
                *e = x;
            }
        }
        inl.visit_block_mut(&mut block);
        used.extend(inl.used);
        if let Some(e) = inl.err {
            return Err(e);
        }
        let ret = match &f.sig.output {
            syn::ReturnType::Type(_, t) => ty_head(t),
            _ => String::new(),
        };
        if let Some(Stmt::Expr(e, None)) = block.stmts.last_mut() {
            if tail_and_then(e, &ret) {
                used.push("and_then(closure) in tail position -> match".into());
            }
        }
        let mut rp = RefPats { used: false };
        rp.visit_block_mut(&mut block);
        if rp.used {
            used.push("`&(ref x, ..)` pattern -> (x, ..)".into());
        }
        let mut cs = Consts { vals: HashMap::new() };
        cs.collect(&mut block);
        if !cs.vals.is_empty() {
            used.push("const in a function body -> its value".into());
            cs.visit_block_mut(&mut block);
        }
        // parameter names of the baseline signature
        let mut sig = f.sig.clone();
        let mut ren = HashMap::new();
        if let Some(b) = baseline {
            let (have, want) = (params(&sig), params(b));
            if have.len() != want.len() {
                return Err(format!("signature changed: {} parameters, contract expects {}", have.len(), want.len()));
            }
            for (h, w) in have.iter().zip(&want) {
                if h != w && h != "_" {
                    ren.insert(h.clone(), w.clone());
                }
            }
        }
        if let Some(want) = locals {
            let mut l = Locals(vec![]);
            l.visit_block(&block);
            if l.0.len() == want.len() {
                for (h, w) in l.0.iter().zip(want) {
                    if h != w && !l.0.contains(w) {
                        ren.insert(h.clone(), w.clone());
                    }
                }
            }
        }
        if !ren.is_empty() {
            used.push("rename locals to the names of the contract".into());
            let r = ren.clone();
            Rename(ren).visit_block_mut(&mut block);
            for i in sig.inputs.iter_mut() {
                if let syn::FnArg::Typed(t) = i {
                    if let syn::Pat::Ident(p) = &mut *t.pat {
                        if let Some(n) = r.get(&p.ident.to_string()) {
                            p.ident = syn::Ident::new(n, p.ident.span());
                        }
                    }
                }
            }
        }
        // `mut` parameters are rebound
        let mut pre = vec![];
        for i in sig.inputs.iter() {
            match i {
                syn::FnArg::Typed(t) => {
                    if let syn::Pat::Ident(p) = &*t.pat {
                        if p.mutability.is_some() && !opts.byref.contains(&p.ident.to_string()) {
                            pre.push(format!("let mut {} = {};", p.ident, p.ident));
                            used.push("mut parameter -> rebinding".into());
                        }
                    }
                }
                syn::FnArg::Receiver(r) => {
                    if r.reference.is_none() && r.mutability.is_some() {
                        pre.push("let mut vx_self = self;".into());
                        let mut m = HashMap::new();
                        m.insert("self".to_string(), "vx_self".to_string());
                        Rename(m).visit_block_mut(&mut block);
                        used.push("mut self -> rebinding".into());
                    }
                }
            }
        }
        let mut renames = self.renames.clone();
        for (a, b) in rename {
            renames.insert(a.clone(), b.clone());
        }
        let mut kinds = HashMap::new();
        for i in sig.inputs.iter() {
            if let syn::FnArg::Typed(t) = i {
                if let (syn::Pat::Ident(p), k) = (&*t.pat, ty_head(&t.ty)) {
                    if k == "Option" || k == "Result" {
                        kinds.insert(p.ident.to_string(), k);
                    }
                }
            }
        }
        for (n, f) in self.all.iter() {
            let n = n.rsplit("::").next().unwrap_or(n);
            let k = match &f.sig.output {
                syn::ReturnType::Type(_, t) => ty_head(t),
                _ => String::new(),
            };
            let key = format!("fn {}", n);
            match kinds.get(&key) {
                Some(o) if *o != k => { kinds.insert(key, "?".into()); }
                _ => { kinds.insert(key, k); }
            }
        }
        kinds.retain(|_, k| k == "Option" || k == "Result");
        Lets { kinds: &mut kinds }.visit_block(&block);
        let mut m = Main { renames, err: None, used: vec![], _p: Default::default(), n: 0, kinds, ret };
        m.visit_block_mut(&mut block);
        used.extend(m.used);
        if let Some(e) = m.err {
            return Err(e);
        }
        Bytes.visit_block_mut(&mut block);
        Paths.visit_block_mut(&mut block);
        let mut k = Mark { n: 0 };
        k.visit_block_mut(&mut block);
        if !before.is_empty() {
            Before { anchors: before, counts: HashMap::new() }.visit_block_mut(&mut block);
        }
        let mut sig = clean_sig(&sig);
        for i in sig.inputs.iter_mut() {
            if let syn::FnArg::Typed(t) = i {
                if matches!(&*t.pat, syn::Pat::Ident(p) if opts.byref.contains(&p.ident.to_string())) {
                    let ty = &t.ty;
                    *t.ty = parse_quote!(&mut #ty);
                }
            }
        }
        if let (Some(b), true) = (baseline, rename.iter().any(|(a, _)| a == "use-baseline-sig")) {
            sig = clean_sig(b);
        }
        // keep the list short
        let mut seen = HashSet::new();
        used.retain(|u| seen.insert(u.clone()));
        Ok(Out { sig, block, loops: k.n, pre, rewrites: used })
    }
}
