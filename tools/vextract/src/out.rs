//! Token printing and JSON output.
use crate::*;
use proc_macro2::{Delimiter, Spacing, TokenTree};
use syn::visit_mut::{self, VisitMut};

pub fn fmt(t: TokenStream) -> String {
    let mut s = String::new();
    emit(t, &mut s, 0);
    s
}
fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    if !s.ends_with('\n') {
        s.push('\n');
    }
    for _ in 0..ind {
        s.push_str("  ");
    }
}
fn emit(t: TokenStream, s: &mut String, ind: usize) {
    let v: Vec<TokenTree> = t.into_iter().collect();
    for (i, tt) in v.iter().enumerate() {
        match tt {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                s.push_str(o);
                if g.delimiter() == Delimiter::Brace {
                    nl(s, ind + 1);
                    emit(g.stream(), s, ind + 1);
                    nl(s, ind);
                    s.push_str(c);
                    let next_inline = matches!(v.get(i + 1), Some(TokenTree::Punct(_))) || matches!(v.get(i + 1), Some(TokenTree::Ident(x)) if x == "else" || x == "as");
                    if !next_inline {
                        nl(s, ind);
                    } else {
                        s.push(' ');
                    }
                } else {
                    emit(g.stream(), s, ind);
                    while s.ends_with(' ') {
                        s.pop();
                    }
                    s.push_str(c);
                    s.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                let ch = p.as_char();
                if (ch == '.' || ch == ',' || ch == ';' || ch == '?') && s.ends_with(' ') && !s.ends_with("\n ") && !s.trim_end_matches(' ').ends_with('\n') {
                    // tighten, except for range operators after a space
                    if ch != '.' {
                        s.pop();
                    }
                }
                s.push(ch);
                if ch == ';' {
                    nl(s, ind);
                } else if p.spacing() == Spacing::Alone && ch != '\'' {
                    s.push(' ');
                }
            }
            TokenTree::Ident(x) => {
                s.push_str(&x.to_string());
                s.push(' ');
            }
            TokenTree::Literal(x) => {
                s.push_str(&x.to_string());
                s.push(' ');
            }
        }
    }
}

pub fn sig_json(sig: &Signature, path: &str) -> Value {
    let params: Vec<Value> = sig
        .inputs
        .iter()
        .enumerate()
        .map(|(i, a)| match a {
            FnArg::Receiver(r) => json!({"name": "self", "ty": ts(r), "recv": true, "text": ts(r)}),
            FnArg::Typed(t) => {
                let name = match &*t.pat {
                    Pat::Ident(p) => p.ident.to_string(),
                    _ => format!("vx_p{i}"),
                };
                json!({"name": name, "ty": ts(&t.ty), "recv": false, "text": ts(t)})
            }
        })
        .collect();
    let ret = match &sig.output {
        ReturnType::Default => Value::Null,
        ReturnType::Type(_, t) => json!(ts(t)),
    };
    let g = &sig.generics;
    let (_, _, wc) = g.split_for_impl();
    json!({
        "kind": "fn", "path": path, "name": sig.ident.to_string(),
        "generics": ts(g), "where": ts(wc), "params": params, "ret": ret,
    })
}

struct Scope {
    name: String,
    ty: String,
    m: bool,
}
struct LoopVisit {
    scopes: Vec<Vec<Scope>>,
    loops: Vec<Value>,
    closures: usize,
}
impl LoopVisit {
    fn pat(&mut self, p: &Pat, ty: &str) {
        match p {
            Pat::Ident(i) => self.scopes.last_mut().unwrap().push(Scope {
                name: i.ident.to_string(),
                ty: ty.to_string(),
                m: i.mutability.is_some(),
            }),
            Pat::Type(t) => {
                let s = ts(&t.ty);
                self.pat(&t.pat, &s)
            }
            Pat::Tuple(t) => {
                for p in &t.elems {
                    self.pat(p, "")
                }
            }
            Pat::TupleStruct(t) => {
                for p in &t.elems {
                    self.pat(p, "")
                }
            }
            Pat::Struct(t) => {
                for p in &t.fields {
                    self.pat(&p.pat, "")
                }
            }
            Pat::Reference(r) => self.pat(&r.pat, ty),
            _ => {}
        }
    }
    fn snapshot(&mut self, kind: &str) -> usize {
        let id = self.loops.len();
        let mut seen = HashSet::new();
        let mut vars = vec![];
        for s in self.scopes.iter().rev() {
            for v in s.iter().rev() {
                if seen.insert(v.name.clone()) {
                    vars.push(json!({"name": v.name, "ty": v.ty, "mut": v.m}));
                }
            }
        }
        self.loops.push(json!({"id": id, "kind": kind, "vars": vars}));
        id
    }
}
impl VisitMut for LoopVisit {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.scopes.push(vec![]);
        visit_mut::visit_block_mut(self, b);
        self.scopes.pop();
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let p = l.pat.clone();
        self.pat(&p, "");
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        self.scopes.push(vec![]);
        let p = a.pat.clone();
        self.pat(&p, "");
        visit_mut::visit_arm_mut(self, a);
        self.scopes.pop();
    }
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) {
        let id = self.snapshot("while");
        visit_mut::visit_expr_while_mut(self, w);
        let lit = proc_macro2::Literal::usize_unsuffixed(id);
        w.body.stmts.insert(0, parse_quote!(vx_loop!(#lit);));
    }
    fn visit_expr_loop_mut(&mut self, w: &mut ExprLoop) {
        let id = self.snapshot("loop");
        visit_mut::visit_expr_loop_mut(self, w);
        let lit = proc_macro2::Literal::usize_unsuffixed(id);
        w.body.stmts.insert(0, parse_quote!(vx_loop!(#lit);));
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        self.closures += 1;
        visit_mut::visit_expr_closure_mut(self, c);
    }
}

struct Callees(Vec<String>);
impl<'a> syn::visit::Visit<'a> for Callees {
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.0.push(p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"));
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        self.0.push(format!(".{}", c.method));
        syn::visit::visit_expr_method_call(self, c);
    }
}

pub fn item_json(w: &World, i: &OutItem) -> Value {
    match i {
        OutItem::Raw(s) => json!({"kind": "raw", "text": s}),
        OutItem::Impl { header, items } => {
            json!({"kind": "impl", "header": header, "items": items.iter().map(|x| item_json(w, x)).collect::<Vec<_>>()})
        }
        OutItem::Trait { header, fns } => json!({"kind": "trait", "header": header, "fns": fns}),
        OutItem::Fn(id) => {
            let f = &w.fns[*id];
            let mut v = sig_json(&f.item.sig, &f.path);
            let mut b = f.item.block.clone();
            let mut lv = LoopVisit { scopes: vec![vec![]], loops: vec![], closures: 0 };
            for a in &f.item.sig.inputs {
                match a {
                    FnArg::Receiver(_) => lv.scopes[0].push(Scope { name: "self".into(), ty: "self".into(), m: false }),
                    FnArg::Typed(t) => {
                        let ty = ts(&t.ty);
                        lv.pat(&t.pat, &ty)
                    }
                }
            }
            lv.visit_block_mut(&mut b);
            let mut c = Callees(vec![]);
            syn::visit::Visit::visit_block(&mut c, &b);
            v["vis"] = json!(ts(&f.item.vis));
            v["body"] = json!(ts(&b));
            v["loops"] = json!(lv.loops);
            v["closures"] = json!(lv.closures);
            v["callees"] = json!(c.0);
            v["is_pub"] = json!(f.is_pub);
            v["trait_impl"] = json!(f.trait_impl);
            v["file"] = json!(f.file);
            v["line"] = json!(f.line);
            v["notes"] = json!(f.notes);
            v["opaque"] = json!(f.opaque);
            v["hoisted"] = json!(f.hoisted);
            v["was_async"] = json!(f.was_async);
            v["self_ty"] = json!(f.self_ty);
            v
        }
    }
}
