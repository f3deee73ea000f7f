//! Inlining of repository functions that carry no contract of their own
//! (helpers), so that callers are verified against the real helper body.
use crate::elim;
use crate::*;
use quote::format_ident;
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};

struct Inl<'a> {
    contracted: &'a HashSet<String>,
    fns: &'a [FnInfo],
    w: &'a World,
    self_ty: Option<String>,
    module: String,
    depth: usize,
    n: usize,
    notes: Vec<String>,
    opaque: bool,
}

pub fn inline_calls(w: &World, fns: &[FnInfo], f: &mut FnInfo) {
    let mut v = Inl {
        contracted: &w.contracted,
        fns,
        w,
        self_ty: f.self_ty.clone(),
        module: f.module.clone(),
        depth: 0,
        n: 0,
        notes: vec![],
        opaque: false,
    };
    let mut b = f.item.block.clone();
    v.visit_block_mut(&mut b);
    f.item.block = b;
    f.notes.extend(v.notes);
    f.opaque |= v.opaque;
}

struct SelfRename {
    to: Ident,
    ty: Option<String>,
    suffix: String,
}
impl VisitMut for SelfRename {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.is_ident("self") {
            *p = syn::Path::from(self.to.clone());
            return;
        }
        if p.segments.len() >= 1 && p.segments[0].ident == "Self" {
            if let Some(t) = &self.ty {
                p.segments[0].ident = format_ident!("{}", t);
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        let s = i.to_string();
        if s.starts_with("vx_") && s.ends_with(|c: char| c.is_ascii_digit()) {
            *i = format_ident!("{}{}", s, self.suffix);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // vx_ghost!(ident)
        if m.path.is_ident("vx_ghost") {
            if let Ok(i) = m.parse_body::<Ident>() {
                let j = format_ident!("{}{}", i.to_string(), self.suffix);
                m.tokens = quote::quote!(#j);
            }
        } else if m.path.is_ident("vec") {
            // elements may mention self
            if let Some(mut v) = norm::parse_vec(m) {
                for e in v.0.iter_mut() {
                    self.visit_expr_mut(e);
                }
                norm::write_vec(m, v);
            }
        }
    }
}

fn strip_lifetimes(t: &Type) -> Type {
    struct L;
    impl VisitMut for L {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r);
        }
    }
    let mut t = t.clone();
    L.visit_type_mut(&mut t);
    t
}

/// is the parameter `p` called in `b`?
fn called(b: &Block, p: &Pat) -> bool {
    struct C(Ident, bool);
    impl VisitMut for C {
        fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.0)) {
                self.1 = true;
            }
            visit_mut::visit_expr_call_mut(self, c);
        }
    }
    let Pat::Ident(p) = p else { return false };
    let mut c = C(p.ident.clone(), false);
    c.visit_block_mut(&mut b.clone());
    c.1
}

/// calls of the parameter `name` become the body of `fun`
struct ApplyFn<'f> {
    name: &'f Ident,
    fun: &'f Expr,
    n: usize,
    ok: bool,
}
impl<'f> VisitMut for ApplyFn<'f> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            let head = match &*c.func {
                Expr::Paren(p) => &*p.expr,
                x => x,
            };
            if matches!(head, Expr::Path(p) if p.path.is_ident(self.name)) {
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                match self.fun {
                    Expr::Closure(k) if k.inputs.len() == args.len() => {
                        let mut st: Vec<Stmt> = vec![];
                        let mut late: Vec<Stmt> = vec![];
                        for (p, a) in k.inputs.iter().zip(args) {
                            self.n += 1;
                            let t = format_ident!("vx_ca{}_{}", self.n, self.name);
                            st.push(parse_quote!(let #t = #a;));
                            norm::bind(&mut self.n, p, parse_quote!(#t), &mut late);
                        }
                        let body = &*k.body;
                        let b = if elim::has_escape(body) {
                            let b: Block = match body {
                                Expr::Block(b) => b.block.clone(),
                                e => parse_quote!({ #e }),
                            };
                            let opt = matches!(&k.output, ReturnType::Type(_, t) if ts(t).starts_with("Option"));
                            match elim::elim_body(&b, &elim::Opt::new(opt)) {
                                Some(x) => x,
                                None => {
                                    self.ok = false;
                                    return;
                                }
                            }
                        } else {
                            body.clone()
                        };
                        *e = parse_quote!({ #(#st)* #(#late)* #b });
                    }
                    Expr::Path(p) => *e = parse_quote!(#p(#(#args),*)),
                    _ => self.ok = false,
                }
                return;
            }
        }
        if matches!(e, Expr::Path(p) if p.path.is_ident(self.name)) {
            // the function itself goes somewhere else
            self.ok = false;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if ts(&m.tokens).split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| *self.name == x) {
            match norm::parse_vec(m) {
                Some(mut v) => {
                    for e in v.0.iter_mut() {
                        self.visit_expr_mut(e);
                    }
                    norm::write_vec(m, v);
                }
                None => self.ok = false,
            }
        }
    }
}

/// locals of the helper that have the name of something a function argument mentions get another name
struct Rename<'m>(&'m HashMap<String, Ident>);
impl<'m> VisitMut for Rename<'m> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if let Some(n) = p.get_ident().and_then(|i| self.0.get(&i.to_string())) {
            *p = syn::Path::from(n.clone());
            return;
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = n.clone();
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
}

fn clashes(body: &mut Block, binds: &[Stmt], funs: &[(Ident, Expr)], suffix: &str) -> Option<HashMap<String, Ident>> {
    struct Bound(HashSet<String>, bool);
    impl VisitMut for Bound {
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            self.0.insert(p.ident.to_string());
            visit_mut::visit_pat_ident_mut(self, p);
        }
        fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
            self.1 |= f.colon_token.is_none();
            visit_mut::visit_field_value_mut(self, f);
        }
        fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
            self.1 |= f.colon_token.is_none();
            visit_mut::visit_field_pat_mut(self, f);
        }
    }
    let mut b = Bound(HashSet::new(), false);
    b.visit_block_mut(body);
    for s in binds {
        b.visit_stmt_mut(&mut s.clone());
    }
    let mut m = HashMap::new();
    for (_, f) in funs {
        let t = ts(f);
        for w in t.split(|c: char| !c.is_alphanumeric() && c != '_') {
            if b.0.contains(w) && w.starts_with(|c: char| c.is_lowercase() || c == '_') && w != "self" && !w.starts_with("vx_") {
                m.insert(w.to_string(), format_ident!("{}_in{}", w, suffix));
            }
        }
    }
    if m.is_empty() {
        return Some(m);
    }
    let macros = {
        let t = ts(&*body);
        t.contains('!') && m.keys().any(|k| t.contains(&format!("! ({k}")) || t.contains(&format!("! [{k}")))
    };
    if b.1 || macros {
        return None;
    }
    Rename(&m).visit_block_mut(body);
    Some(m)
}

impl<'a> Inl<'a> {
    fn find(&self, name: &str, qual: Option<&str>, method: bool, recv: Option<&Expr>) -> Option<&'a FnInfo> {
        let c: Vec<&FnInfo> = self
            .fns
            .iter()
            .filter(|f| f.item.sig.ident == name && f.trait_impl.is_none())
            .filter(|f| {
                let has_self = f.item.sig.receiver().is_some();
                if method {
                    let ty = match recv {
                        Some(Expr::Path(p)) if p.path.is_ident("self") || p.path.get_ident().map_or(false, |i| i.to_string().starts_with("vx_self")) => self.self_ty.clone(),
                        Some(Expr::Field(fe)) => match &fe.member {
                            Member::Named(n) => self.w.field_ty.get(&n.to_string()).cloned().filter(|s| !s.is_empty()),
                            _ => None,
                        },
                        _ => None,
                    };
                    has_self && (ty.is_none() && !name.starts_with("vx_") || ty == f.self_ty)
                } else {
                    match qual {
                        None => f.self_ty.is_none() && f.module == self.module || f.self_ty.is_none() && !has_self,
                        Some("Self") => f.self_ty == self.self_ty,
                        Some(q) => f.self_ty.as_deref() == Some(q) || f.self_ty.is_none() && f.module.rsplit("::").next() == Some(q),
                    }
                }
            })
            .collect();
        if c.is_empty() {
            return None;
        }
        if c.len() > 1 {
            let local: Vec<&&FnInfo> = c.iter().filter(|f| f.module == self.module && (f.self_ty.is_none() || f.self_ty == self.self_ty)).collect();
            if local.len() == 1 {
                return Some(local[0]);
            }
            return None;
        }
        Some(c[0])
    }

    fn expand(&mut self, f: &FnInfo, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 6 {
            return None;
        }
        let sig = &f.item.sig;
        let mut gens: HashMap<String, ()> = HashMap::new();
        for g in &sig.generics.params {
            match g {
                GenericParam::Type(t) => {
                    gens.insert(t.ident.to_string(), ());
                }
                GenericParam::Const(t) => {
                    gens.insert(t.ident.to_string(), ());
                }
                _ => {}
            }
        }
        let opt = matches!(&sig.output, ReturnType::Type(_, t) if matches!(&**t, Type::Path(p) if p.path.segments.last().unwrap().ident == "Option"));
        self.n += 1;
        let suffix = format!("_h{}", self.n);
        let self_id = format_ident!("vx_self{}", suffix);
        let mut stmts: Vec<Stmt> = vec![];
        let mut binds: Vec<Stmt> = vec![];
        let mut funs: Vec<(Ident, Expr)> = vec![];
        let mut ai = args.into_iter();
        for (k, p) in sig.inputs.iter().enumerate() {
            let tmp = format_ident!("vx_a{}{}", k, suffix);
            match p {
                FnArg::Receiver(r) => {
                    let e = recv.clone().or_else(|| ai.next())?;
                    if r.reference.is_some() {
                        let is_self = matches!(&e, Expr::Path(p) if p.path.is_ident("self")) || matches!(&e, Expr::Path(p) if p.path.segments.len() == 1 && p.path.segments[0].ident.to_string().starts_with("vx_self"));
                        if is_self {
                            // `self` is already a reference in the caller; keep it (reborrow)
                            if r.mutability.is_some() {
                                stmts.push(parse_quote!(let #self_id = &mut *#e;));
                            } else {
                                stmts.push(parse_quote!(let #self_id = &*#e;));
                            }
                        } else if r.mutability.is_some() {
                            stmts.push(parse_quote!(let #self_id = &mut #e;));
                        } else {
                            stmts.push(parse_quote!(let #self_id = &#e;));
                        }
                    } else {
                        stmts.push(parse_quote!(let #self_id = #e;));
                    }
                }
                FnArg::Typed(t) => {
                    let e = ai.next()?;
                    let g = matches!(&*t.ty, Type::Path(q) if q.path.get_ident().map_or(false, |i| gens.contains_key(&i.to_string())));
                    let by_ref = |x: &Expr| match x {
                        Expr::Reference(r) => (*r.expr).clone(),
                        x => x.clone(),
                    };
                    let callee = by_ref(&e);
                    if let (Expr::Closure(_), _) | (Expr::Path(_), true) = (&callee, matches!(&*t.ty, Type::BareFn(_) | Type::ImplTrait(_)) || g && called(&f.item.block, &t.pat)) {
                        // a function argument: its calls are expanded in place
                        let Pat::Ident(p) = &*t.pat else { return None };
                        funs.push((p.ident.clone(), callee));
                        continue;
                    }
                    if let Type::ImplTrait(_) = &*t.ty {
                        return None;
                    }
                    let pat = &t.pat;
                    let ty = strip_lifetimes(&t.ty);
                    let mentions = ts(&ty).split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| gens.contains_key(x) || x == "Self");
                    stmts.push(parse_quote!(let #tmp = #e;));
                    if mentions {
                        binds.push(parse_quote!(let #pat = #tmp;));
                    } else {
                        binds.push(parse_quote!(let #pat: #ty = #tmp;));
                    }
                }
            }
        }
        let mut body = f.item.block.clone();
        let renamed = if funs.is_empty() { HashMap::new() } else { clashes(&mut body, &binds, &funs, &suffix)? };
        if !renamed.is_empty() {
            for s in binds.iter_mut() {
                if let Stmt::Local(l) = s {
                    Rename(&renamed).visit_pat_mut(&mut l.pat);
                }
            }
        }
        SelfRename { to: self_id, ty: f.self_ty.clone(), suffix }.visit_block_mut(&mut body);
        for (k, fun) in &funs {
            let mut a = ApplyFn { name: k, fun, n: 0, ok: true };
            a.visit_block_mut(&mut body);
            if !a.ok {
                return None;
            }
        }
        let e = if body.stmts.iter().any(elim::stmt_escape) {
            let ret = match &sig.output {
                ReturnType::Type(_, t) => {
                    let ty = strip_lifetimes(t);
                    let known = !ts(&ty).split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| gens.contains_key(x) || x == "Self" || x == "impl");
                    known.then_some(ty)
                }
                ReturnType::Default => Some(parse_quote!(())),
            };
            elim::elim_body(&body, &elim::Opt { option: opt, ret, flag: None })?
        } else {
            Expr::Block(ExprBlock { attrs: vec![], label: None, block: body })
        };
        stmts.extend(binds);
        // result type annotation keeps inference as in the helper
        let mut res: Expr = match &sig.output {
            ReturnType::Type(_, t) => {
                let ty = strip_lifetimes(t);
                let mentions = ts(&ty).split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| gens.contains_key(x) || x == "Self" || x == "impl");
                if mentions {
                    parse_quote!({ #(#stmts)* #e })
                } else {
                    let r = format_ident!("vx_r{}", self.n);
                    parse_quote!({ #(#stmts)* let #r: #ty = #e; #r })
                }
            }
            ReturnType::Default => parse_quote!({ #(#stmts)* #e; }),
        };
        self.notes.push(format!("inlined {}", f.path));
        // inline inside the inlined body as well, with the helper's own context
        let (st, md) = (self.self_ty.clone(), self.module.clone());
        self.self_ty = f.self_ty.clone();
        self.module = f.module.clone();
        self.depth += 1;
        self.visit_expr_mut(&mut res);
        self.depth -= 1;
        self.self_ty = st;
        self.module = md;
        Some(res)
    }
}

impl<'a> VisitMut for Inl<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let (f, recv, args) = match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let name = segs.last().unwrap().clone();
                if segs.len() == 1 && name.starts_with("vx_") && !name.starts_with("vx_extend") {
                    return;
                }
                let q = if segs.len() > 1 { Some(segs[segs.len() - 2].as_str()) } else { None };
                match self.find(&name, q, false, None) {
                    Some(f) => (f, None, c.args.iter().cloned().collect::<Vec<_>>()),
                    None => return,
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match self.find(&name, None, true, Some(&m.receiver)) {
                    Some(f) => {
                        // plain field-like names on foreign types must not match: the
                        // receiver type is unknown, so only private helpers are inlined
                        // when their name is unique in the crate
                        (f, Some((*m.receiver).clone()), m.args.iter().cloned().collect::<Vec<_>>())
                    }
                    None => return,
                }
            }
            _ => return,
        };
        if self.contracted.contains(&f.path) {
            return;
        }
        if f.is_pub && recv.is_some() && ["len", "is_empty", "new", "get", "contains", "insert", "remove", "push", "message", "string"].contains(&f.item.sig.ident.to_string().as_str()) {
            return;
        }
        let f = f.clone();
        match self.expand(&f, recv, args) {
            Some(x) => *e = x,
            None => {
                self.notes.push(format!("not inlined {}", f.path));
                self.opaque = true;
            }
        }
    }
}
