//! Elimination of `return` and `?` from a closure / helper body so that it can
//! be placed inline as an expression.  An exit from inside a loop sets a flag
//! that ends the loop.  Returns None when the shape is not handled.
use quote::format_ident;
use std::cell::Cell;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

thread_local! { static N: Cell<usize> = const { Cell::new(0) }; }
fn fresh(p: &str) -> Ident {
    N.with(|n| {
        n.set(n.get() + 1);
        format_ident!("vx_{}{}", p, n.get())
    })
}
pub fn reset() {
    N.with(|n| n.set(0));
}

struct Esc(bool);
impl<'a> Visit<'a> for Esc {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
pub fn has_escape(e: &Expr) -> bool {
    let mut v = Esc(false);
    v.visit_expr(e);
    v.0
}
pub fn stmt_escape(s: &Stmt) -> bool {
    let mut v = Esc(false);
    visit::visit_stmt(&mut v, s);
    v.0
}

fn block_stmts(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}
fn wrap(stmts: Vec<Stmt>, tail: Expr) -> Expr {
    // `{ stmts; tail }`
    match tail {
        Expr::Block(b) if b.label.is_none() && !stmts.is_empty() => {
            let mut s = stmts;
            s.extend(b.block.stmts);
            parse_quote!({ #(#s)* })
        }
        t if stmts.is_empty() => t,
        t => parse_quote!({ #(#stmts)* #t }),
    }
}
fn seq(mut a: Vec<Stmt>, rest: &[Stmt]) -> Vec<Stmt> {
    if let Some(Stmt::Expr(e, None)) = a.last().cloned() {
        if !rest.is_empty() {
            a.pop();
            a.push(Stmt::Expr(e, Some(Default::default())));
        }
    }
    a.extend(rest.iter().cloned());
    a
}

#[derive(Clone, Default)]
pub struct Opt {
    pub option: bool,
    /// the type of the result, where it is known
    pub ret: Option<Type>,
    /// inside a loop: the variable that takes the result of an exit
    pub flag: Option<Ident>,
}
impl Opt {
    pub fn new(option: bool) -> Opt {
        Opt { option, ret: None, flag: None }
    }
    /// the expression that stands for an exit with the value `v`
    fn exit(&self, v: Expr) -> Expr {
        match &self.flag {
            Some(f) => parse_quote!({ #f = Some(#v); }),
            None => v,
        }
    }
}

/// a loop with an exit in its body, and what follows it
fn looped(w: &ExprWhile, rest: &[Stmt], o: &Opt, d: usize) -> Option<Expr> {
    if w.label.is_some() || has_escape(&w.cond) || matches!(&*w.cond, Expr::Let(_)) {
        return None;
    }
    let fl = o.flag.clone().unwrap_or_else(|| fresh("z"));
    let inner = Opt { flag: Some(fl.clone()), ..o.clone() };
    let mut stmts = w.body.stmts.clone();
    // the marker of the loop stays first
    let b = go(&stmts.split_off(0), &inner, d + 1)?;
    let b = block_stmts(&b);
    let c = &w.cond;
    let l: Stmt = parse_quote!(while #fl.is_none() && #c { #(#b)* });
    if o.flag.is_some() {
        if rest.is_empty() {
            return Some(parse_quote!({ #l }));
        }
        let t = go(rest, o, d + 1)?;
        return Some(parse_quote!({ #l if #fl.is_none() { #t } }));
    }
    let t = go(rest, o, d + 1)?;
    let pre: Stmt = match &o.ret {
        Some(r) => parse_quote!(let mut #fl: Option<#r> = None;),
        None => parse_quote!(let mut #fl = None;),
    };
    Some(parse_quote!({ #pre #l match #fl { Some(vx_v) => vx_v, None => { #t } } }))
}

pub fn elim_body(b: &Block, o: &Opt) -> Option<Expr> {
    go(&b.stmts, o, 0)
}

fn go(stmts: &[Stmt], o: &Opt, d: usize) -> Option<Expr> {
    if d > 60 {
        return None;
    }
    if stmts.is_empty() {
        return Some(parse_quote!(()));
    }
    let (s, rest) = (&stmts[0], &stmts[1..]);
    if !stmt_escape(s) {
        if rest.is_empty() {
            return Some(match s {
                Stmt::Expr(e, None) => e.clone(),
                s => parse_quote!({ #s }),
            });
        }
        let t = go(rest, o, d + 1)?;
        let s = match s {
            Stmt::Expr(e, None) => {
                let e = e.clone();
                Stmt::Expr(e, Some(Default::default()))
            }
            s => s.clone(),
        };
        return Some(wrap(vec![s], t));
    }
    match s {
        Stmt::Expr(Expr::While(w), _) => looped(w, rest, o, d + 1),
        Stmt::Expr(e, semi) => {
            if rest.is_empty() && semi.is_none() {
                return tail(e, o, d + 1);
            }
            match e {
                Expr::Return(r) => exit_with(r, o, d + 1),
                Expr::If(i) if !has_escape(&i.cond) => {
                    let c = &i.cond;
                    let a = go(&seq(i.then_branch.stmts.clone(), rest), o, d + 1)?;
                    let b = match &i.else_branch {
                        Some((_, e)) => go(&seq(block_stmts(e), rest), o, d + 1)?,
                        None => go(rest, o, d + 1)?,
                    };
                    Some(parse_quote!(if #c { #a } else { #b }))
                }
                Expr::Match(m) if !has_escape(&m.expr) => {
                    let mut m = m.clone();
                    for a in &mut m.arms {
                        let b = go(&seq(block_stmts(&a.body), rest), o, d + 1)?;
                        *a.body = parse_quote!({ #b });
                    }
                    Some(Expr::Match(m))
                }
                Expr::Block(b) if b.label.is_none() => {
                    // scope of the block is extended over the rest; acceptable
                    go(&seq(b.block.stmts.clone(), rest), o, d + 1)
                }
                e => {
                    let (x, q, e2) = hoist(e)?;
                    let st = Stmt::Expr(e2, Some(Default::default()));
                    let mut v = vec![st];
                    v.extend(rest.iter().cloned());
                    let t = go(&v, o, d + 1)?;
                    Some(bind_try(x, q, t, o))
                }
            }
        }
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let pat = &l.pat;
            if let Some((_, els)) = &init.diverge {
                let e = &init.expr;
                if has_escape(e) {
                    return None;
                }
                let p = match pat {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let a = go(rest, o, d + 1)?;
                let b = go(&block_stmts(els), o, d + 1)?;
                return Some(parse_quote!(match #e { #p => { #a } _ => { #b } }));
            }
            match &*init.expr {
                Expr::Match(m) if !has_escape(&m.expr) => {
                    let mut m = m.clone();
                    for a in &mut m.arms {
                        let b = go(&let_into(block_stmts(&a.body), pat, rest)?, o, d + 1)?;
                        *a.body = parse_quote!({ #b });
                    }
                    Some(Expr::Match(m))
                }
                Expr::If(i) if !has_escape(&i.cond) => {
                    let c = &i.cond;
                    let a = go(&let_into(i.then_branch.stmts.clone(), pat, rest)?, o, d + 1)?;
                    let e = i.else_branch.as_ref()?;
                    let b = go(&let_into(block_stmts(&e.1), pat, rest)?, o, d + 1)?;
                    Some(parse_quote!(if #c { #a } else { #b }))
                }
                Expr::Block(b) if b.label.is_none() => {
                    go(&let_into(b.block.stmts.clone(), pat, rest)?, o, d + 1)
                }
                e => {
                    let (x, q, e2) = hoist(e)?;
                    let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #e2;)];
                    v.extend(rest.iter().cloned());
                    let t = go(&v, o, d + 1)?;
                    Some(bind_try(x, q, t, o))
                }
            }
        }
        _ => None,
    }
}

/// stmts ending in a value (or diverging) -> stmts; let pat = value; rest
fn let_into(mut a: Vec<Stmt>, pat: &Pat, rest: &[Stmt]) -> Option<Vec<Stmt>> {
    match a.pop() {
        Some(Stmt::Expr(Expr::Return(r), _)) => {
            a.push(Stmt::Expr(Expr::Return(r), None));
            Some(a)
        }
        Some(Stmt::Expr(e, None)) => {
            a.push(parse_quote!(let #pat = #e;));
            a.extend(rest.iter().cloned());
            Some(a)
        }
        _ => None,
    }
}

fn exit_with(r: &ExprReturn, o: &Opt, d: usize) -> Option<Expr> {
    let v = match &r.expr {
        Some(x) => tail(x, &Opt { flag: None, ..o.clone() }, d)?,
        None => parse_quote!(()),
    };
    Some(o.exit(v))
}

fn bind_try(x: Expr, q: Ident, t: Expr, o: &Opt) -> Expr {
    if o.option {
        let n = o.exit(parse_quote!(None));
        parse_quote!(match #x { Some(#q) => { #t } None => #n })
    } else {
        let n = o.exit(parse_quote!(Err(vx_e)));
        parse_quote!(match #x { Ok(#q) => { #t } Err(vx_e) => #n })
    }
}

fn tail(e: &Expr, o: &Opt, d: usize) -> Option<Expr> {
    if !has_escape(e) {
        return Some(e.clone());
    }
    match e {
        Expr::Return(r) => exit_with(r, o, d + 1),
        Expr::Paren(p) => tail(&p.expr, o, d + 1),
        Expr::If(i) if !has_escape(&i.cond) => {
            let c = &i.cond;
            let a = go(&i.then_branch.stmts, o, d + 1)?;
            let b = match &i.else_branch {
                Some((_, e)) => tail(e, o, d + 1)?,
                None => parse_quote!(()),
            };
            Some(parse_quote!(if #c { #a } else { #b }))
        }
        Expr::Match(m) if !has_escape(&m.expr) => {
            let mut m = m.clone();
            for a in &mut m.arms {
                let b = tail(&a.body, o, d + 1)?;
                *a.body = parse_quote!({ #b });
            }
            Some(Expr::Match(m))
        }
        Expr::Block(b) if b.label.is_none() => go(&b.block.stmts, o, d + 1),
        e => {
            let (x, q, e2) = hoist(e)?;
            let t = tail(&e2, o, d + 1)?;
            Some(bind_try(x, q, t, o))
        }
    }
}

/// pulls the first evaluated `X?` out of `e`: (X, fresh name, e with the name)
fn hoist(e: &Expr) -> Option<(Expr, Ident, Expr)> {
    struct H {
        found: Option<(Expr, Ident)>,
        bad: bool,
    }
    impl VisitMut for H {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if self.found.is_some() || self.bad {
                return;
            }
            match e {
                Expr::Closure(_) => return,
                Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) => {
                    if has_escape(e) {
                        self.bad = true;
                    }
                    return;
                }
                Expr::Return(_) => {
                    self.bad = true;
                    return;
                }
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
            if self.found.is_some() || self.bad {
                return;
            }
            if let Expr::Try(t) = e {
                let q = fresh("q");
                self.found = Some(((*t.expr).clone(), q.clone()));
                *e = parse_quote!(#q);
            }
        }
    }
    let mut e2 = e.clone();
    let mut h = H { found: None, bad: false };
    h.visit_expr_mut(&mut e2);
    if h.bad {
        return None;
    }
    let (x, q) = h.found?;
    Some((x, q, e2))
}
