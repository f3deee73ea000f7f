//! Calls of async functions are verified as if they ran at the call.  That is only right when the future is
//! polled to completion there and then; every other use of a future makes the function opaque (not decided).
use std::collections::HashSet;
use syn::visit::{self, Visit};
use syn::*;

const EXT_ASYNC: &[&str] = &[
    "connect", "send", "send_to", "recv", "recv_from", "timeout", "timeout_at", "sleep", "handle_radius_request", "bind", "readable", "writable", "yield_now",
];
const TAKES_FUTURE: &[&str] = &["timeout", "spawn"];

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
fn callee(e: &Expr) -> Option<String> {
    match strip(e) {
        Expr::Call(c) => match strip(&c.func) {
            Expr::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
            _ => None,
        },
        Expr::MethodCall(m) => Some(m.method.to_string()),
        _ => None,
    }
}
pub struct Futs {
    names: HashSet<String>,
    /// spans of futures that are consumed at once
    ok: HashSet<usize>,
    pub bad: Option<String>,
}
fn id(e: &Expr) -> usize {
    strip(e) as *const Expr as usize
}
impl Futs {
    pub fn new(own: impl Iterator<Item = String>) -> Self {
        Futs { names: own.chain(EXT_ASYNC.iter().map(|s| s.to_string())).collect(), ok: HashSet::new(), bad: None }
    }
    fn is_future(&self, e: &Expr) -> bool {
        matches!(strip(e), Expr::Async(_)) || callee(e).map_or(false, |n| self.names.contains(&n))
    }
    fn accept(&mut self, e: &Expr) {
        self.ok.insert(id(e));
    }
}
fn is_var(e: &Expr, f: &Ident) -> bool {
    match strip(e) {
        Expr::Path(p) => p.path.is_ident(f),
        Expr::Call(c) => callee(e).as_deref() == Some("pin") && c.args.iter().any(|a| is_var(a, f)),
        _ => false,
    }
}
/// no effect, so that it may come before or after
fn pure(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => pure(&f.base),
        Expr::Reference(r) => pure(&r.expr),
        Expr::Unary(u) => pure(&u.expr),
        Expr::Let(l) => pure(&l.expr),
        Expr::MethodCall(m) => m.args.is_empty() && ["is_some", "is_none", "as_ref", "clone"].contains(&m.method.to_string().as_str()) && pure(&m.receiver),
        _ => false,
    }
}
/// whatever else `e` does, it waits for the future `f` before
fn waits(e: &Expr, f: &Ident) -> bool {
    match strip(e) {
        Expr::Await(a) => {
            is_var(&a.base, f)
                || waits(&a.base, f)
                || match strip(&a.base) {
                    Expr::Call(c) => callee(&a.base).map_or(false, |n| n == "timeout") && c.args.iter().any(|x| is_var(x, f)) && c.args.iter().all(|x| is_var(x, f) || pure(x)),
                    _ => false,
                }
        }
        Expr::Call(c) => callee(e).map_or(false, |n| n == "spawn") && c.args.iter().any(|x| is_var(x, f)),
        Expr::Try(t) => waits(&t.expr, f),
        Expr::MethodCall(m) => waits(&m.receiver, f),
        Expr::Let(l) => waits(&l.expr, f),
        Expr::Return(r) => r.expr.as_ref().map_or(false, |x| waits(x, f)),
        Expr::Match(m) => waits(&m.expr, f) || (pure(&m.expr) && m.arms.iter().all(|a| a.guard.is_none() && waits(&a.body, f))),
        Expr::If(i) => waits(&i.cond, f) || (pure(&i.cond) && first_waits(&i.then_branch.stmts, f) && i.else_branch.as_ref().map_or(false, |(_, x)| waits(x, f))),
        Expr::Block(b) => first_waits(&b.block.stmts, f),
        _ => false,
    }
}
fn first_waits(s: &[Stmt], f: &Ident) -> bool {
    match s.first() {
        Some(Stmt::Expr(e, _)) => waits(e, f),
        Some(Stmt::Local(l)) => l.init.as_ref().map_or(false, |i| waits(&i.expr, f)),
        _ => false,
    }
}
impl<'a> Visit<'a> for Futs {
    fn visit_block(&mut self, b: &'a Block) {
        for (i, s) in b.stmts.iter().enumerate() {
            if let Stmt::Local(l) = s {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if self.is_future(&init.expr) && first_waits(&b.stmts[i + 1..], &p.ident) {
                        self.accept(&init.expr);
                    }
                }
            }
        }
        visit::visit_block(self, b);
    }
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Await(a) => self.accept(&a.base),
            Expr::Call(c) if callee(e).map_or(false, |n| TAKES_FUTURE.contains(&n.as_str())) => c.args.iter().for_each(|a| self.accept(a)),
            _ => {}
        }
        if self.bad.is_none() && !matches!(e, Expr::Paren(_) | Expr::Group(_)) && self.is_future(e) && !self.ok.contains(&id(e)) {
            self.bad = Some(callee(e).unwrap_or_else(|| "async block".into()));
        }
        visit::visit_expr(self, e);
    }
}
