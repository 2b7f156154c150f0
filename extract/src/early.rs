//! Early exits (`return`, `?`, `let … else`) of a helper, turned into branches, so that its body
//! can stand where it is called. Code after a branch that may leave is moved (copied) into the
//! branches that do not leave. Nothing is done for exits inside loops or closures.
use quote::ToTokens;
use syn::visit::Visit;
use syn::{parse_quote, Block, Expr, Stmt};

struct Leaves(bool);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) => self.0 = true,
            Expr::Closure(_) => return,
            _ => {}
        }
        syn::visit::visit_expr(self, e)
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
fn leaves_e(e: &Expr) -> bool {
    let mut l = Leaves(false);
    l.visit_expr(e);
    l.0
}
fn leaves_s(s: &Stmt) -> bool {
    let mut l = Leaves(false);
    l.visit_stmt(s);
    l.0
}
/// the statements never reach their end
fn diverges(b: &Block) -> bool {
    b.stmts.iter().any(|s| match s {
        Stmt::Expr(e, _) => diverges_e(e),
        _ => false,
    })
}
fn diverges_e(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) if b.label.is_none() => diverges(&b.block),
        Expr::If(i) => i.else_branch.as_ref().map_or(false, |(_, x)| diverges(&i.then_branch) && diverges_e(x)),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| diverges_e(&a.body)),
        _ => false,
    }
}

pub struct Early {
    pub ret: String,
    pub conv: bool,
    budget: usize,
    n: usize,
}
pub fn eliminate(b: &Block, ret: &str, conv: bool) -> Option<Block> {
    let mut e = Early { ret: ret.to_string(), conv, budget: 400, n: 0 };
    let s = e.seq(&b.stmts)?;
    Some(parse_quote!({ #(#s)* }))
}
type Out = Option<Vec<Stmt>>;
impl Early {
    fn spend(&mut self) -> Option<()> {
        if self.budget == 0 {
            return None;
        }
        self.budget -= 1;
        Some(())
    }
    fn fresh(&mut self) -> syn::Ident {
        self.n += 1;
        syn::Ident::new(&format!("vx_q{}", self.n), proc_macro2::Span::call_site())
    }
    /// statements whose value is the value of the function
    fn seq(&mut self, s: &[Stmt]) -> Out {
        self.spend()?;
        let (first, rest) = match s.split_first() {
            None => return Some(vec![]),
            Some(x) => x,
        };
        if !s.iter().any(leaves_s) {
            return Some(s.to_vec());
        }
        if !leaves_s(first) {
            let mut v = vec![first.clone()];
            // a value that is dropped keeps its place as a statement
            v.extend(self.seq(rest)?);
            return Some(v);
        }
        match first {
            Stmt::Expr(Expr::Return(r), _) => match &r.expr {
                Some(e) => self.tail(e),
                None => Some(vec![]),
            },
            Stmt::Expr(e, None) if rest.is_empty() => self.tail(e),
            Stmt::Expr(e, _) => self.bind(e, &[], &mut |_, v| v.map(|v| if unit(&v) { vec![] } else { vec![parse_quote!(let _ = #v;)] }).unwrap_or_default(), rest),
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let pat = l.pat.clone();
                if let Some((_, els)) = &init.diverge {
                    if leaves_e(&init.expr) {
                        return None;
                    }
                    let e = &init.expr;
                    let yes = self.seq(rest)?;
                    let no = match &**els {
                        Expr::Block(b) => self.seq(&b.block.stmts)?,
                        e => self.tail(e)?,
                    };
                    return Some(vec![Stmt::Expr(parse_quote!(match #e { #pat => { #(#yes)* }, _ => { #(#no)* } }), None)]);
                }
                self.bind(&init.expr, &pat_names(&pat), &mut |_, v| match v {
                    Some(v) => vec![parse_quote!(let #pat = #v;)],
                    None => vec![],
                }, rest)
            }
            _ => None,
        }
    }
    /// an expression whose value is the value of the function
    fn tail(&mut self, e: &Expr) -> Out {
        self.spend()?;
        if !leaves_e(e) {
            return Some(vec![Stmt::Expr(e.clone(), None)]);
        }
        match e {
            Expr::Return(r) => match &r.expr {
                Some(e) => self.tail(e),
                None => Some(vec![]),
            },
            Expr::Paren(p) => self.tail(&p.expr),
            Expr::Block(b) if b.label.is_none() => {
                let s = self.seq(&b.block.stmts)?;
                Some(vec![Stmt::Expr(parse_quote!({ #(#s)* }), None)])
            }
            _ => self.bind(e, &[], &mut |_, v| v.map(|v| vec![Stmt::Expr(v, None)]).unwrap_or_default(), &[]),
        }
    }
    /// `e` evaluated, its value used by `k`, then `rest`
    fn bind(&mut self, e: &Expr, kn: &[String], k: &mut dyn FnMut(&mut Self, Option<Expr>) -> Vec<Stmt>, rest: &[Stmt]) -> Out {
        self.spend()?;
        if !leaves_e(e) {
            let mut s = k(self, Some(e.clone()));
            s.extend(rest.iter().cloned());
            return self.seq(&s);
        }
        match e {
            Expr::Return(_) => self.tail(e),
            Expr::Paren(p) => self.bind(&p.expr, kn, k, rest),
            Expr::Block(b) if b.label.is_none() => {
                let s = self.into_block(&b.block, kn, k, rest)?;
                Some(vec![Stmt::Expr(parse_quote!({ #(#s)* }), None)])
            }
            Expr::If(i) => {
                if leaves_e(&i.cond) || clash(&cond_names(&i.cond), kn, rest) {
                    return None;
                }
                let c = &i.cond;
                let yes = self.into_block(&i.then_branch, kn, k, rest)?;
                let no = match &i.else_branch {
                    Some((_, x)) => self.bind(x, kn, k, rest)?,
                    None => {
                        let mut s = k(self, None);
                        s.extend(rest.iter().cloned());
                        self.seq(&s)?
                    }
                };
                Some(vec![Stmt::Expr(parse_quote!(if #c { #(#yes)* } else { #(#no)* }), None)])
            }
            Expr::Match(m) if !leaves_e(&m.expr) => {
                let x = &m.expr;
                let mut arms: Vec<syn::Arm> = vec![];
                for a in &m.arms {
                    if clash(&pat_names(&a.pat), kn, rest) {
                        return None;
                    }
                    if let Some((_, g)) = &a.guard {
                        if leaves_e(g) {
                            return None;
                        }
                    }
                    let s = match &*a.body {
                        Expr::Block(b) if b.label.is_none() => self.into_block(&b.block, kn, k, rest)?,
                        b => self.bind(b, kn, k, rest)?,
                    };
                    let mut a = a.clone();
                    a.body = parse_quote!({ #(#s)* });
                    a.comma = Some(Default::default());
                    arms.push(a);
                }
                Some(vec![Stmt::Expr(parse_quote!(match #x { #(#arms)* }), None)])
            }
            Expr::Try(t) if !leaves_e(&t.expr) => {
                let x = &t.expr;
                let v = self.fresh();
                let mut s = k(self, Some(parse_quote!(#v)));
                s.extend(rest.iter().cloned());
                let s = self.seq(&s)?;
                let m: Expr = match (self.ret.as_str(), self.conv) {
                    ("Option", _) => parse_quote!(match #x { Some(#v) => { #(#s)* }, None => None }),
                    (_, true) => parse_quote!(match #x { Ok(#v) => { #(#s)* }, Err(vx_e) => Err(vx_conv(vx_e)) }),
                    _ => parse_quote!(match #x { Ok(#v) => { #(#s)* }, Err(vx_e) => Err(vx_e) }),
                };
                Some(vec![Stmt::Expr(m, None)])
            }
            // the part that may leave is evaluated first
            _ => {
                let (inner, outer, v) = self.first(e)?;
                let mut s: Vec<Stmt> = vec![parse_quote!(let #v = #inner;)];
                // what is left may leave as well
                s.extend(k(self, Some(outer)));
                s.extend(rest.iter().cloned());
                self.seq(&s)
            }
        }
    }
    fn into_block(&mut self, b: &Block, kn: &[String], k: &mut dyn FnMut(&mut Self, Option<Expr>) -> Vec<Stmt>, rest: &[Stmt]) -> Out {
        let mut s: Vec<Stmt> = b.stmts.clone();
        let own: Vec<String> = s.iter().flat_map(|s| match s {
            Stmt::Local(l) => pat_names(&l.pat),
            _ => vec![],
        }).collect();
        if !diverges(b) {
            if clash(&own, kn, rest) {
                return None;
            }
            match s.pop() {
                Some(Stmt::Expr(e, None)) => {
                    if s.iter().any(leaves_s) || leaves_e(&e) {
                        // `e` is bound after the statements before it
                        let mut n = k(self, Some(e));
                        n.extend(rest.iter().cloned());
                        s.extend(n);
                    } else {
                        s.extend(k(self, Some(e)));
                        s.extend(rest.iter().cloned());
                    }
                }
                last => {
                    s.extend(last);
                    s.extend(k(self, None));
                    s.extend(rest.iter().cloned());
                }
            }
        }
        self.seq(&s)
    }
    /// the first evaluated sub-expression with an early exit, taken out
    fn first(&mut self, e: &Expr) -> Option<(Expr, Expr, syn::Ident)> {
        let take = |s: &mut Self, x: &Expr| -> Option<(Expr, Expr, syn::Ident)> {
            if matches!(x, Expr::Try(_) | Expr::Match(_) | Expr::If(_) | Expr::Block(_)) {
                let v = s.fresh();
                Some((x.clone(), parse_quote!(#v), v))
            } else {
                s.first(x)
            }
        };
        let mut e = e.clone();
        match &mut e {
            Expr::Call(c) => {
                if leaves_e(&c.func) {
                    return None;
                }
                for a in c.args.iter_mut() {
                    if leaves_e(a) {
                        let (i, o, v) = take(self, a)?;
                        *a = o;
                        return Some((i, e, v));
                    }
                    if !inert(a) {
                        return None;
                    }
                }
                None
            }
            Expr::MethodCall(m) => {
                if leaves_e(&m.receiver) {
                    let (i, o, v) = take(self, &m.receiver)?;
                    *m.receiver = o;
                    return Some((i, e, v));
                }
                if !inert(&m.receiver) {
                    return None;
                }
                for a in m.args.iter_mut() {
                    if leaves_e(a) {
                        let (i, o, v) = take(self, a)?;
                        *a = o;
                        return Some((i, e, v));
                    }
                    if !inert(a) {
                        return None;
                    }
                }
                None
            }
            Expr::Match(m) => {
                let (i, o, v) = take(self, &m.expr)?;
                *m.expr = o;
                Some((i, e, v))
            }
            Expr::Field(f) => {
                let (i, o, v) = take(self, &f.base)?;
                *f.base = o;
                Some((i, e, v))
            }
            Expr::Try(t) => {
                let (i, o, v) = take(self, &t.expr)?;
                *t.expr = o;
                Some((i, e, v))
            }
            Expr::Cast(t) => {
                let (i, o, v) = take(self, &t.expr)?;
                *t.expr = o;
                Some((i, e, v))
            }
            Expr::Unary(t) => {
                let (i, o, v) = take(self, &t.expr)?;
                *t.expr = o;
                Some((i, e, v))
            }
            Expr::Tuple(t) => {
                for a in t.elems.iter_mut() {
                    if leaves_e(a) {
                        let (i, o, v) = take(self, a)?;
                        *a = o;
                        return Some((i, e, v));
                    }
                    if !inert(a) {
                        return None;
                    }
                }
                None
            }
            Expr::Struct(t) => {
                for f in t.fields.iter_mut() {
                    if leaves_e(&f.expr) {
                        let (i, o, v) = take(self, &f.expr)?;
                        f.expr = o;
                        return Some((i, e, v));
                    }
                    if !inert(&f.expr) {
                        return None;
                    }
                }
                None
            }
            Expr::Binary(b) if !matches!(b.op, syn::BinOp::And(_) | syn::BinOp::Or(_)) => {
                if leaves_e(&b.left) {
                    let (i, o, v) = take(self, &b.left)?;
                    *b.left = o;
                    return Some((i, e, v));
                }
                if !inert(&b.left) {
                    return None;
                }
                let (i, o, v) = take(self, &b.right)?;
                *b.right = o;
                Some((i, e, v))
            }
            Expr::Assign(a) => {
                if leaves_e(&a.left) {
                    return None;
                }
                let (i, o, v) = take(self, &a.right)?;
                *a.right = o;
                Some((i, e, v))
            }
            _ => None,
        }
    }
}
struct Names(Vec<String>);
impl<'a> Visit<'a> for Names {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p)
    }
}
fn pat_names(p: &syn::Pat) -> Vec<String> {
    let mut n = Names(vec![]);
    n.visit_pat(p);
    n.0
}
fn cond_names(e: &Expr) -> Vec<String> {
    let mut n = Names(vec![]);
    n.visit_expr(e);
    n.0
}
/// would moving `rest` under these bindings change what its names mean?
fn clash(own: &[String], rebound: &[String], rest: &[Stmt]) -> bool {
    fn walk(t: proc_macro2::TokenStream, f: &mut dyn FnMut(String)) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Group(g) => walk(g.stream(), f),
                proc_macro2::TokenTree::Ident(i) => f(i.to_string()),
                _ => {}
            }
        }
    }
    let mut hit = false;
    for s in rest {
        walk(s.to_token_stream(), &mut |i| hit |= own.contains(&i) && !rebound.contains(&i));
    }
    hit
}
fn unit(e: &Expr) -> bool {
    matches!(e, Expr::Tuple(t) if t.elems.is_empty()) || e.to_token_stream().is_empty()
}
/// evaluating it later changes nothing and sees nothing
fn inert(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Reference(r) => r.mutability.is_none() && inert(&r.expr),
        Expr::Field(f) => inert(&f.base),
        Expr::Paren(p) => inert(&p.expr),
        _ => false,
    }
}
