//! Debug implementations: the builder chains of `std::fmt` become statements on
//! the formatter (`vx_lit`, `vx_show`, `vx_field`, `vx_res`), and a twin of the
//! function is made whose body runs the original body for two values.
use crate::elim;
use proc_macro2::TokenStream;
use std::collections::HashSet;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct F {
    f: Ident,
    alias: HashSet<String>,
}

impl F {
    fn is_f(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().is_some_and(|i| *i == self.f || self.alias.contains(&i.to_string())),
            Expr::Paren(p) => self.is_f(&p.expr),
            Expr::Reference(r) => self.is_f(&r.expr),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.is_f(expr),
            _ => false,
        }
    }
    /// statements of a chain, and whether it ends with a result
    fn chain(&self, e: &Expr) -> Option<(Vec<Stmt>, bool)> {
        let f = &self.f;
        if self.is_f(e) {
            return Some((vec![], false));
        }
        let Expr::MethodCall(m) = e else { return None };
        let (mut s, done) = self.chain(&m.receiver)?;
        if done {
            return None;
        }
        let a: Vec<&Expr> = m.args.iter().collect();
        let mut fin = false;
        match (m.method.to_string().as_str(), a.len()) {
            ("debug_struct" | "debug_tuple", 1) => {
                let n = a[0];
                s.push(parse_quote!(#f.vx_lit(#n);));
            }
            ("debug_list" | "debug_set" | "debug_map", 0) => {
                let n = m.method.to_string();
                s.push(parse_quote!(#f.vx_lit(#n);));
            }
            ("field", 2) => {
                let (n, v) = (a[0], a[1]);
                s.push(parse_quote!(#f.vx_field(#n, #v);));
            }
            ("field" | "entry" | "key" | "value", 1) => {
                let v = a[0];
                s.push(parse_quote!(#f.vx_show(#v);));
            }
            ("entry", 2) => {
                let (k, v) = (a[0], a[1]);
                s.push(parse_quote!(#f.vx_show(#k);));
                s.push(parse_quote!(#f.vx_show(#v);));
            }
            ("write_str" | "pad", 1) => {
                let v = a[0];
                s.push(parse_quote!(#f.vx_lit(#v);));
                fin = true;
            }
            ("write_char", 1) => {
                let v = a[0];
                s.push(parse_quote!(#f.vx_show(&#v);));
                fin = true;
            }
            ("write_fmt", 1) => {
                let Expr::Macro(x) = a[0] else { return None };
                let (lit, vs) = fmt_args(&x.mac, false)?;
                s.extend(self.writes(&lit, &vs));
                fin = true;
            }
            ("finish" | "finish_non_exhaustive", 0) => {
                let n = m.method.to_string();
                s.push(parse_quote!(#f.vx_lit(#n);));
                fin = true;
            }
            _ => return None,
        }
        Some((s, fin))
    }
    fn writes(&self, lit: &LitStr, vs: &[Expr]) -> Vec<Stmt> {
        let f = &self.f;
        let mut s: Vec<Stmt> = vec![parse_quote!(#f.vx_lit(#lit);)];
        for v in vs {
            s.push(parse_quote!(#f.vx_show(&(#v));));
        }
        s
    }
}

/// the format string and every value it refers to
fn fmt_args(m: &Macro, dest: bool) -> Option<(LitStr, Vec<Expr>)> {
    let mut a: Vec<Expr> = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok()?.into_iter().collect();
    if dest {
        if a.is_empty() {
            return None;
        }
        a.remove(0);
    }
    if a.is_empty() {
        return Some((parse_quote!(""), vec![]));
    }
    let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = a.remove(0) else { return None };
    let mut named = HashSet::new();
    let mut out = vec![];
    for e in a {
        if let Expr::Assign(x) = &e {
            if let Expr::Path(p) = &*x.left {
                named.insert(p.path.get_ident()?.to_string());
            }
            out.push((*x.right).clone());
        } else {
            out.push(e);
        }
    }
    let s = l.value();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut idents = vec![];
    while i < cs.len() {
        if cs[i] == '{' && i + 1 < cs.len() && cs[i + 1] == '{' {
            i += 2;
        } else if cs[i] == '{' {
            let mut w = String::new();
            let mut k = i + 1;
            while k < cs.len() && cs[k] != '}' {
                w.push(cs[k]);
                k += 1;
            }
            let (name, spec) = w.split_once(':').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((w.clone(), String::new()));
            idents.push(name.trim().to_string());
            for p in spec.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '$')) {
                if let Some(n) = p.strip_suffix('$') {
                    idents.push(n.to_string());
                }
            }
            i = k + 1;
        } else {
            i += 1;
        }
    }
    for n in idents {
        if !n.is_empty() && !n.chars().next().unwrap().is_ascii_digit() && !named.contains(&n) {
            let id: Ident = syn::parse_str(&n).ok()?;
            out.push(parse_quote!(#id));
        }
    }
    Some((l, out))
}

impl VisitMut for F {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Local(l) => {
                    let hit = match (&l.pat, &l.init) {
                        (Pat::Ident(p), Some(i)) if i.diverge.is_none() && !self.is_f(&i.expr) => match self.chain(&i.expr) {
                            Some((s, false)) => Some((p.ident.to_string(), s)),
                            _ => None,
                        },
                        _ => None,
                    };
                    match hit {
                        Some((n, s)) => {
                            self.alias.insert(n);
                            out.extend(s);
                        }
                        None => out.push(Stmt::Local(l)),
                    }
                }
                Stmt::Macro(m) if m.mac.path.is_ident("write") || m.mac.path.is_ident("writeln") => {
                    out.push(Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac }), m.semi_token));
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let f = self.f.clone();
        let mut new: Option<Expr> = None;
        match e {
            Expr::MethodCall(m) => {
                if let Some((s, fin)) = self.chain(&Expr::MethodCall(m.clone())) {
                    if !s.is_empty() {
                        new = Some(if fin { parse_quote!({ #(#s)* #f.vx_res() }) } else { parse_quote!({ #(#s)* }) });
                    }
                } else if m.method == "fmt" && m.args.len() == 1 && self.is_f(&m.args[0]) {
                    let r = &m.receiver;
                    new = Some(parse_quote!({ #f.vx_show(&(#r)); #f.vx_res() }));
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.path.segments.last().is_some_and(|s| s.ident == "fmt") && c.args.len() == 2 && self.is_f(&c.args[1]) {
                        let r = &c.args[0];
                        new = Some(parse_quote!({ #f.vx_show(#r); #f.vx_res() }));
                    }
                }
            }
            Expr::Macro(m) if m.mac.path.is_ident("write") || m.mac.path.is_ident("writeln") => {
                let first = m
                    .mac
                    .parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
                    .ok()
                    .and_then(|p| p.into_iter().next());
                if first.is_some_and(|x| self.is_f(&x)) {
                    if let Some((l, v)) = fmt_args(&m.mac, true) {
                        let s = self.writes(&l, &v);
                        new = Some(parse_quote!({ #(#s)* #f.vx_res() }));
                    }
                }
            }
            Expr::Macro(m) if m.mac.path.is_ident("format") => {
                if let Some((l, v)) = fmt_args(&m.mac, false) {
                    let mut x: Expr = parse_quote!(vx_fmt_of(#l, &()));
                    for v in v {
                        x = parse_quote!(vx_fmt_of(#x.as_str(), &(#v)));
                    }
                    new = Some(x);
                }
            }
            _ => {}
        }
        if let Some(n) = new {
            *e = n;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Ren<'a>(Vec<(String, &'a Ident)>);
impl VisitMut for Ren<'_> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        for (a, b) in &self.0 {
            if i == a {
                *i = (*b).clone();
            }
        }
    }
    fn visit_member_mut(&mut self, _: &mut Member) {}
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        self.visit_expr_mut(&mut m.receiver);
        for a in m.args.iter_mut() {
            self.visit_expr_mut(a);
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        self.visit_expr_mut(&mut f.expr);
    }
}

/// normalises a Debug::fmt in place; returns the twin
pub fn debug_fn(it: &mut ImplItemFn) -> Option<ImplItemFn> {
    if it.sig.ident != "fmt" || it.sig.inputs.len() != 2 {
        return None;
    }
    let FnArg::Typed(p) = it.sig.inputs.last()? else { return None };
    let Pat::Ident(pi) = &*p.pat else { return None };
    let f = pi.ident.clone();
    F { f: f.clone(), alias: HashSet::new() }.visit_block_mut(&mut it.block);
    let e = elim::elim_body(&it.block, &elim::Opt::new(false))?;
    let id = |s: &str| Ident::new(s, proc_macro2::Span::call_site());
    let (a, b, f1, f2) = (id("vx_a"), id("vx_b"), id("vx_f1"), id("vx_f2"));
    let mut e1 = e.clone();
    Ren(vec![("self".into(), &a), (f.to_string(), &f1)]).visit_expr_mut(&mut e1);
    let mut e2 = e;
    Ren(vec![("self".into(), &b), (f.to_string(), &f2)]).visit_expr_mut(&mut e2);
    let _: TokenStream = TokenStream::new();
    let t = &p.ty;
    Some(parse_quote!(
        fn vx_fmt_twice(vx_a: &Self, vx_b: &Self, vx_f1: #t, vx_f2: #t) {
            let vx_r1: std::fmt::Result = #e1;
            let vx_r2: std::fmt::Result = #e2;
        }
    ))
}
