//! Iterator pipelines and `for` loops -> explicit cursor loops.
use crate::norm::*;
use quote::format_ident;
use syn::*;

enum Ad {
    Map(Expr),
    Filter(Expr),
    TakeWhile(Expr),
    FilterMap(Expr),
    FlatMap(Expr),
    Copied,
    Cloned,
    Enumerate,
    Take(Expr),
    Zip(Expr),
    Skip(Expr),
    Inspect,
}
struct Pipe {
    src: Expr, // cursor-producing expression
    ads: Vec<Ad>,
}

const SOURCES: &[&str] = &["iter", "into_iter", "chunks", "bytes", "drain"];

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        e => e,
    }
}

/// recognises SRC.adapter()*
fn parse_pipe(e: &Expr) -> Option<Pipe> {
    match strip(e) {
        Expr::Range(r) => {
            let (a, b) = (r.start.as_ref()?, r.end.as_ref()?);
            let src = match r.limits {
                RangeLimits::HalfOpen(_) => parse_quote!(vx_range(#a, #b)),
                RangeLimits::Closed(_) => parse_quote!(vx_range_incl(#a, #b)),
            };
            Some(Pipe { src, ads: vec![] })
        }
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            let r = &m.receiver;
            let args: Vec<Expr> = m.args.iter().cloned().collect();
            if args.is_empty() && n == "iter" {
                return Some(Pipe { src: parse_quote!(#r.vx_iter()), ads: vec![] });
            }
            if args.is_empty() && n == "bytes" {
                return Some(Pipe { src: parse_quote!(#r.as_bytes().vx_iter()), ads: vec![Ad::Copied] });
            }
            if args.is_empty() && n == "into_iter" {
                if let Some(p) = parse_pipe(r) {
                    return Some(p);
                }
                return Some(Pipe { src: parse_quote!(#r.vx_cur()), ads: vec![] });
            }
            if args.len() == 1 && n == "drain" {
                // draining the full range leaves the vector empty however far the loop gets
                if let Expr::Range(rg) = strip(&args[0]) {
                    if rg.start.is_none() && rg.end.is_none() {
                        return Some(Pipe { src: parse_quote!(vx_take_vec(&mut #r).vx_cur()), ads: vec![] });
                    }
                }
                return None;
            }
            if args.len() == 1 && n == "chunks" {
                let k = &args[0];
                return Some(Pipe { src: parse_quote!(#r.vx_chunks(#k)), ads: vec![] });
            }
            if args.len() == 1 && n == "step_by" {
                if let Expr::Range(rg) = strip(r) {
                    if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                        let k = &args[0];
                        return Some(Pipe { src: parse_quote!(vx_range_step(#a, #b, #k)), ads: vec![] });
                    }
                }
                return None;
            }
            let mut p = match n.as_str() {
                "map" | "filter" | "take_while" | "filter_map" | "flat_map" | "copied" | "cloned" | "enumerate" | "take" | "zip" | "skip" | "by_ref" | "fuse" | "inspect" => parse_pipe(r)?,
                _ => return None,
            };
            match (n.as_str(), args.len()) {
                ("map", 1) => p.ads.push(Ad::Map(args[0].clone())),
                ("take_while", 1) => p.ads.push(Ad::TakeWhile(args[0].clone())),
                ("filter", 1) => p.ads.push(Ad::Filter(args[0].clone())),
                ("filter_map", 1) => p.ads.push(Ad::FilterMap(args[0].clone())),
                ("flat_map", 1) => p.ads.push(Ad::FlatMap(args[0].clone())),
                ("copied", 0) => p.ads.push(Ad::Copied),
                ("cloned", 0) => p.ads.push(Ad::Cloned),
                ("enumerate", 0) => p.ads.push(Ad::Enumerate),
                ("take", 1) => p.ads.push(Ad::Take(args[0].clone())),
                ("zip", 1) => p.ads.push(Ad::Zip(args[0].clone())),
                ("skip", 1) => p.ads.push(Ad::Skip(args[0].clone())),
                ("inspect", 1) => p.ads.push(Ad::Inspect),
                ("fuse", 0) => {}
                _ => return None,
            }
            Some(p)
        }
        _ => None,
    }
}

fn is_pipe(e: &Expr) -> bool {
    // a range alone is not a pipeline unless it is iterated
    match strip(e) {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if SOURCES.contains(&n.as_str()) {
                return true;
            }
            parse_pipe(e).is_some()
        }
        _ => false,
    }
}

struct Built {
    pre: Vec<Stmt>,
    conds: Vec<Expr>,
    post: Vec<Stmt>,
}

/// a borrowed temporary gets a name so that it lives as long as the loop
fn bind_src(n: &mut Norm, src: &Expr, pre: &mut Vec<Stmt>) -> Expr {
    if let Expr::MethodCall(m) = src {
        if (m.method == "vx_iter" || m.method == "vx_chunks") && matches!(strip(&m.receiver), Expr::Call(_) | Expr::MethodCall(_) | Expr::Macro(_) | Expr::Block(_)) {
            let t = n.fresh("t");
            let r = &m.receiver;
            pre.push(parse_quote!(let #t = #r;));
            let mut m2 = m.clone();
            m2.receiver = parse_quote!(#t);
            return Expr::MethodCall(m2);
        }
    }
    src.clone()
}

/// builds the loop; `sink(cur)` gives the statements consuming one element
fn build(n: &mut Norm, p: Pipe, sink: &mut dyn FnMut(&mut Norm, Expr) -> Option<Vec<Stmt>>) -> Option<Built> {
    let c = n.fresh("c");
    let mut pre: Vec<Stmt> = vec![];
    let src = bind_src(n, &p.src, &mut pre);
    pre.push(parse_quote!(let mut #c = #src;));
    if let Some(Ad::Skip(k)) = p.ads.first() {
        pre.push(parse_quote!(#c = #c.vx_skip(#k);));
    }
    pre.push(parse_quote!(vx_ghost!(#c);));
    let mut conds: Vec<Expr> = vec![parse_quote!(#c.vx_more())];
    let x = n.fresh("x");
    let mut head: Vec<Stmt> = vec![parse_quote!(let #x = #c.vx_take();)];
    let mut cur: Expr = parse_quote!(#x);
    // nested structure because of filters: build inside-out with a stack of wrappers
    enum W {
        Stmts(Vec<Stmt>),
        If(Expr),
        IfElse(Expr, Ident),
        IfSome(Expr, Ident),
    }
    let mut ws: Vec<W> = vec![];
    let mut filtered = false;
    for (ad_i, a) in p.ads.into_iter().enumerate() {
        match a {
            Ad::Map(f) => {
                let v = n.apply(&f, &[cur.clone()], false)?;
                let y = n.fresh("y");
                ws.push(W::Stmts(vec![parse_quote!(let #y = #v;)]));
                cur = parse_quote!(#y);
            }
            Ad::Filter(f) => {
                let cond = n.apply(&f, &[parse_quote!(&#cur)], false)?;
                ws.push(W::If(cond));
                filtered = true;
            }
            Ad::TakeWhile(f) => {
                let cond = n.apply(&f, &[parse_quote!(&#cur)], false)?;
                let w = n.fresh("w");
                pre.push(parse_quote!(let mut #w = false;));
                conds.insert(0, parse_quote!(!#w));
                ws.push(W::IfElse(cond, w));
                filtered = true;
            }
            Ad::FilterMap(f) => {
                let cond = n.apply(&f, &[cur.clone()], true)?;
                let y = n.fresh("y");
                ws.push(W::IfSome(cond, y.clone()));
                cur = parse_quote!(#y);
                filtered = true;
            }
            Ad::FlatMap(_) => return None,
            Ad::Copied => cur = parse_quote!((*#cur)),
            Ad::Cloned => {
                let y = n.fresh("y");
                ws.push(W::Stmts(vec![parse_quote!(let #y = #cur.clone();)]));
                cur = parse_quote!(#y);
            }
            Ad::Enumerate => {
                let k = n.fresh("n");
                let y = n.fresh("y");
                pre.push(parse_quote!(let mut #k: usize = 0;));
                ws.push(W::Stmts(vec![parse_quote!(let #y = #k;), parse_quote!(#k = vx_inc(#k);)]));
                cur = parse_quote!((#y, #cur));
            }
            Ad::Take(k) => {
                if filtered {
                    return None;
                }
                let t = n.fresh("n");
                pre.push(parse_quote!(let mut #t: usize = #k;));
                conds.insert(0, parse_quote!(#t > 0));
                head.push(parse_quote!(#t = #t - 1;));
            }
            Ad::Zip(o) => {
                if filtered {
                    return None;
                }
                let c2 = n.fresh("c");
                // nested pipeline on the right: only plain sources
                let (src2, extra) = match parse_pipe(&o) {
                    Some(p2) => (p2.src, p2.ads),
                    None => (parse_quote!((#o).vx_cur()), vec![]),
                };
                let src2 = bind_src(n, &src2, &mut pre);
                pre.push(parse_quote!(let mut #c2 = #src2;));
                if let Some(Ad::Skip(k)) = extra.first() {
                    pre.push(parse_quote!(#c2 = #c2.vx_skip(#k);));
                }
                pre.push(parse_quote!(vx_ghost!(#c2);));
                conds.push(parse_quote!(#c2.vx_more()));
                let x2 = n.fresh("x");
                let mut rhs: Expr = parse_quote!(#x2);
                head.push(parse_quote!(let #x2 = #c2.vx_take();));
                for (ei, e) in extra.into_iter().enumerate() {
                    match e {
                        Ad::Copied => rhs = parse_quote!((*#rhs)),
                        Ad::Cloned => rhs = parse_quote!(#rhs.clone()),
                        Ad::Map(f) => {
                            let v = n.apply(&f, &[rhs.clone()], false)?;
                            let y = n.fresh("y");
                            ws.push(W::Stmts(vec![parse_quote!(let #y = #v;)]));
                            rhs = parse_quote!(#y);
                        }
                        Ad::Skip(_) if ei == 0 => {}
                        _ => return None,
                    }
                }
                cur = parse_quote!((#cur, #rhs));
            }
            Ad::Skip(k) => {
                let _ = k;
                if ad_i != 0 {
                    return None;
                }
            }
            Ad::Inspect => return None,
        }
    }
    let mut inner = sink(n, cur)?;
    for w in ws.into_iter().rev() {
        inner = match w {
            W::Stmts(mut s) => {
                s.extend(inner);
                s
            }
            W::IfElse(c, w) => vec![Stmt::Expr(parse_quote!(if (#c) { #(#inner)* } else { #w = true; }), None)],
            W::If(c) => vec![Stmt::Expr(parse_quote!(if (#c) { #(#inner)* }), None)],
            W::IfSome(c, y) => vec![Stmt::Expr(parse_quote!(match #c { Some(#y) => { #(#inner)* } None => {} }), None)],
        };
    }
    head.extend(inner);
    Some(Built { pre, conds, post: head })
}

fn loop_expr(b: Built, extra_pre: Vec<Stmt>, extra_cond: Option<Expr>, tail: Expr) -> Expr {
    let Built { pre, mut conds, post } = b;
    if let Some(c) = extra_cond {
        conds.insert(0, c);
    }
    let mut it = conds.into_iter();
    let mut cond = it.next().unwrap();
    for c in it {
        cond = parse_quote!(#cond && #c);
    }
    parse_quote!({ #(#pre)* #(#extra_pre)* while #cond { #(#post)* } #tail })
}

pub fn collect_vec(n: &mut Norm, mut p: Pipe2, ty: Option<Type>) -> Option<Expr> {
    let flat = match p.0.ads.last() {
        Some(Ad::FlatMap(_)) => match p.0.ads.pop() {
            Some(Ad::FlatMap(f)) => Some(f),
            _ => None,
        },
        _ => None,
    };
    let o = n.fresh("o");
    let oc = o.clone();
    let b = build(n, p.0, &mut |n, cur| {
        Some(match &flat {
            Some(f) => {
                let v = n.apply(f, &[cur], false)?;
                vec![parse_quote!(#oc.vx_extend(#v);)]
            }
            None => vec![parse_quote!(#oc.push(#cur);)],
        })
    })?;
    let pre: Stmt = match ty {
        Some(t) => parse_quote!(let mut #o: #t = Vec::new();),
        None => parse_quote!(let mut #o = Vec::new();),
    };
    Some(loop_expr(b, vec![pre], None, parse_quote!(#o)))
}
pub struct Pipe2(Pipe);

/// a collect() into Result<Vec<_>, _>
fn collect_result(n: &mut Norm, p: Pipe) -> Option<Expr> {
    let o = n.fresh("o");
    let er = n.fresh("e");
    let (oc, ec) = (o.clone(), er.clone());
    let b = build(n, p, &mut |_, cur| {
        Some(vec![Stmt::Expr(
            parse_quote!(match #cur { Ok(vx_k) => { #oc.push(vx_k); } Err(vx_e) => { #ec = Some(vx_e); } }),
            None,
        )])
    })?;
    Some(loop_expr(
        b,
        vec![parse_quote!(let mut #o = Vec::new();), parse_quote!(let mut #er = None;)],
        Some(parse_quote!(#er.is_none())),
        parse_quote!(match #er { Some(vx_e) => Err(vx_e), None => Ok(#o) }),
    ))
}

/// the tail `collect()` of a function returning Result<Vec..> collects into a Result
pub fn mark_tail(n: &mut Norm, b: &mut Block) {
    if !n.ret.replace(' ', "").starts_with("Result<Vec") {
        return;
    }
    if let Some(Stmt::Expr(Expr::MethodCall(m), None)) = b.stmts.last_mut() {
        if m.method == "collect" && m.turbofish.is_none() {
            m.method = format_ident!("vx_collect_result");
        }
    }
}

fn turbofish_ty(m: &ExprMethodCall) -> Option<Type> {
    m.turbofish.as_ref().and_then(|t| match t.args.first() {
        Some(GenericArgument::Type(t)) => Some(t.clone()),
        _ => None,
    })
}

/// where the element of the base sequence is found in the pattern of the whole pipeline
fn base_pat<'p>(e: &mut Expr, pat: &'p mut Pat) -> Option<(&'p mut Pat, *mut Expr)> {
    if let Pat::Paren(p) = pat {
        return base_pat(e, &mut p.pat);
    }
    match e {
        Expr::Paren(p) => base_pat(&mut p.expr, pat),
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "iter_mut" if m.args.is_empty() => Some((pat, e as *mut Expr)),
            "zip" => match pat {
                Pat::Tuple(t) if t.elems.len() == 2 => base_pat(&mut m.receiver, &mut t.elems[0]),
                _ => None,
            },
            "enumerate" => match pat {
                Pat::Tuple(t) if t.elems.len() == 2 => base_pat(&mut m.receiver, &mut t.elems[1]),
                _ => None,
            },
            "take" | "skip" => base_pat(&mut m.receiver, pat),
            _ => None,
        },
        _ => None,
    }
}

struct Place<'b> {
    x: &'b Ident,
    place: Expr,
    bad: bool,
}
impl<'b> syn::visit_mut::VisitMut for Place<'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let is = |e: &Expr, x: &Ident| matches!(strip(e), Expr::Path(p) if p.path.is_ident(x));
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && is(&u.expr, self.x) => *e = self.place.clone(),
            Expr::Field(f) if is(&f.base, self.x) => *f.base = self.place.clone(),
            Expr::MethodCall(m) if is(&m.receiver, self.x) => {
                *m.receiver = self.place.clone();
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            }
            Expr::Path(p) if p.path.is_ident(self.x) => self.bad = true,
            Expr::Macro(m) if m.mac.tokens.to_string().contains(&self.x.to_string()) => self.bad = true,
            _ => syn::visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// `for x in v.iter_mut()` as a loop over the indices of `v`
fn iter_mut_loop(n: &mut Norm, f: &ExprForLoop) -> Option<ExprForLoop> {
    let mut f = f.clone();
    let (pat, base) = base_pat(&mut f.expr, &mut f.pat)?;
    let Pat::Ident(x) = pat else { return None };
    let x = x.ident.clone();
    let k = n.fresh("i");
    *pat = parse_quote!(#k);
    // SAFETY: `base` points into f.expr, which is not otherwise borrowed here
    let b = unsafe { &mut *base };
    let Expr::MethodCall(m) = &*b else { return None };
    let mut seq = (*strip(&m.receiver)).clone();
    let range: Expr = match &seq {
        Expr::Index(ix) => {
            let Expr::Range(r) = strip(&ix.index) else { return None };
            let v = (*ix.expr).clone();
            let lo: Expr = r.start.as_ref().map(|b| (**b).clone()).unwrap_or_else(|| parse_quote!(0));
            let hi: Expr = match (&r.end, &r.limits) {
                (Some(b), RangeLimits::HalfOpen(_)) => (**b).clone(),
                (None, _) => parse_quote!(#v.len()),
                _ => return None,
            };
            let q: Expr = parse_quote!((vx_in(#lo, #hi, #v.len())..#hi));
            seq = v;
            q
        }
        s => parse_quote!((0..#s.len())),
    };
    if !matches!(strip(&seq), Expr::Path(_) | Expr::Field(_)) {
        return None;
    }
    *b = range;
    let mut r = Place { x: &x, place: parse_quote!(#seq[#k]), bad: false };
    use syn::visit_mut::VisitMut;
    r.visit_block_mut(&mut f.body);
    if r.bad {
        return None;
    }
    Some(f)
}

pub fn try_pipeline(n: &mut Norm, e: &Expr) -> Option<Expr> {
    if let Expr::ForLoop(f) = e {
        if let Some(f) = iter_mut_loop(n, f) {
            return try_pipeline(n, &Expr::ForLoop(f));
        }
    }
    if let Expr::MethodCall(m) = e {
        if m.method == "for_each" && m.args.len() == 1 {
            if let Expr::Closure(c) = &m.args[0] {
                if c.inputs.len() == 1 {
                    let (p, b, r) = (&c.inputs[0], &c.body, &m.receiver);
                    let mut f: ExprForLoop = parse_quote!(for vx_x in #r { #b; });
                    f.pat = Box::new(match p {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    });
                    if let Some(f) = iter_mut_loop(n, &f) {
                        return try_pipeline(n, &Expr::ForLoop(f));
                    }
                }
            }
        }
    }
    match e {
        Expr::ForLoop(f) => {
            let body = &f.body;
            let p = match parse_pipe(&f.expr) {
                Some(p) => p,
                None => {
                    let x = &f.expr;
                    Pipe { src: parse_quote!((#x).vx_cur()), ads: vec![] }
                }
            };
            let pat = (*f.pat).clone();
            let b = build(n, p, &mut |n, cur| {
                let mut st = vec![];
                bind(&mut n.n, &pat, cur, &mut st);
                st.extend(body.stmts.clone());
                if let Some(Stmt::Expr(e, None)) = st.last().cloned() {
                    st.pop();
                    st.push(Stmt::Expr(e, Some(Default::default())));
                }
                Some(st)
            })?;
            let e = loop_expr(b, vec![], None, parse_quote!(()));
            Some(match (&f.label, e) {
                (None, e) => e,
                _ => return None,
            })
        }
        Expr::MethodCall(m) => {
            let name = m.method.to_string();
            let args: Vec<Expr> = m.args.iter().cloned().collect();
            // X.retain(|x| c)
            if name == "retain" && args.len() == 1 {
                if let Expr::Closure(_) = &args[0] {
                    let r = &m.receiver;
                    let o = n.fresh("o");
                    let s = n.fresh("s");
                    let oc = o.clone();
                    let f = args[0].clone();
                    let p = Pipe { src: parse_quote!(#s.vx_cur()), ads: vec![] };
                    let b = build(n, p, &mut |n, cur| {
                        let c = n.apply(&f, &[parse_quote!(&#cur)], false)?;
                        Some(vec![Stmt::Expr(parse_quote!(if #c { #oc.push(#cur); }), None)])
                    })?;
                    let mut b = b;
                    b.pre.insert(0, parse_quote!(let #s = vx_take_vec(&mut #r);));
                    return Some(loop_expr(b, vec![parse_quote!(let mut #o = Vec::new();)], None, parse_quote!({ #r = #o; })));
                }
            }
            // X.split(|b| c).next()
            if name == "next" && args.is_empty() {
                if let Expr::MethodCall(sp) = strip(&m.receiver) {
                    if sp.method == "split" && sp.args.len() == 1 {
                        let r = &sp.receiver;
                        let s = n.fresh("s");
                        let k = n.fresh("i");
                        let c = n.apply(&sp.args[0], &[parse_quote!(&#s[#k])], false)?;
                        return Some(parse_quote!({
                            let #s = #r.vx_slice();
                            let mut #k: usize = 0;
                            while #k < #s.len() && !(#c) { #k = #k + 1; }
                            Some(&#s[..#k])
                        }));
                    }
                }
            }
            if (name == "extend" || name == "extend_from_slice") && args.len() == 1 && is_pipe(&args[0]) {
                // trivial sources are given to vx_extend directly
                let r = &m.receiver;
                if let Expr::MethodCall(a) = strip(&args[0]) {
                    let inner = a.receiver.clone();
                    if a.method == "iter" {
                        return Some(parse_quote!(#r.vx_extend(#inner.vx_slice())));
                    }
                    if a.method == "into_iter" {
                        return Some(parse_quote!(#r.vx_extend(#inner)));
                    }
                    if (a.method == "copied" || a.method == "cloned") && matches!(strip(&inner), Expr::MethodCall(i) if i.method == "iter") {
                        if let Expr::MethodCall(i) = strip(&inner) {
                            let x = &i.receiver;
                            return Some(parse_quote!(#r.vx_extend(#x.vx_slice())));
                        }
                    }
                }
                let p = parse_pipe(&args[0])?;
                let v = collect_vec(n, Pipe2(p), None)?;
                return Some(parse_quote!(#r.vx_extend(#v)));
            }
            if !["collect", "vx_collect_result", "find", "any", "all", "position", "fold", "for_each", "count", "next", "find_map", "sum"].contains(&name.as_str()) {
                return None;
            }
            let p = parse_pipe(&m.receiver)?;
            match (name.as_str(), args.len()) {
                ("vx_collect_result", 0) => collect_result(n, p),
                ("collect", 0) => {
                    let ty = turbofish_ty(m);
                    if let Some(t) = &ty {
                        let s = crate::ts(t).replace(' ', "");
                        if s.starts_with("Result<Vec") {
                            return collect_result(n, p);
                        }
                        if !s.starts_with("Vec<") {
                            return None;
                        }
                    }
                    if p.ads.len() == 1 && matches!(p.ads[0], Ad::Copied) {
                        let src = &p.src;
                        return Some(parse_quote!(vx_vec_from(#src)));
                    }
                    collect_vec(n, Pipe2(p), ty)
                }
                ("find", 1) => {
                    let r = n.fresh("r");
                    let rc = r.clone();
                    let f = args[0].clone();
                    let b = build(n, p, &mut |n, cur| {
                        let c = n.apply(&f, &[parse_quote!(&#cur)], false)?;
                        Some(vec![Stmt::Expr(parse_quote!(if #c { #rc = Some(#cur); }), None)])
                    })?;
                    Some(loop_expr(b, vec![parse_quote!(let mut #r = None;)], Some(parse_quote!(#r.is_none())), parse_quote!(#r)))
                }
                ("find_map", 1) => {
                    let r = n.fresh("r");
                    let rc = r.clone();
                    let f = args[0].clone();
                    let b = build(n, p, &mut |n, cur| {
                        let c = n.apply(&f, &[cur], true)?;
                        Some(vec![parse_quote!(#rc = #c;)])
                    })?;
                    Some(loop_expr(b, vec![parse_quote!(let mut #r = None;)], Some(parse_quote!(#r.is_none())), parse_quote!(#r)))
                }
                ("any", 1) | ("all", 1) => {
                    let r = n.fresh("b");
                    let rc = r.clone();
                    let f = args[0].clone();
                    let any = name == "any";
                    let b = build(n, p, &mut |n, cur| {
                        let c = n.apply(&f, &[cur], false)?;
                        let t: Stmt = if any {
                            Stmt::Expr(parse_quote!(if #c { #rc = true; }), None)
                        } else {
                            Stmt::Expr(parse_quote!(if !(#c) { #rc = false; }), None)
                        };
                        Some(vec![t])
                    })?;
                    let (init, cond): (Stmt, Expr) = if any {
                        (parse_quote!(let mut #r = false;), parse_quote!(!#r))
                    } else {
                        (parse_quote!(let mut #r = true;), parse_quote!(#r))
                    };
                    Some(loop_expr(b, vec![init], Some(cond), parse_quote!(#r)))
                }
                ("position", 1) => {
                    let r = n.fresh("r");
                    let k = n.fresh("n");
                    let (rc, kc) = (r.clone(), k.clone());
                    let f = args[0].clone();
                    let b = build(n, p, &mut |n, cur| {
                        let c = n.apply(&f, &[cur], false)?;
                        Some(vec![Stmt::Expr(parse_quote!(if #c { #rc = Some(#kc); }), None), parse_quote!(#kc = vx_inc(#kc);)])
                    })?;
                    Some(loop_expr(
                        b,
                        vec![parse_quote!(let mut #r: Option<usize> = None;), parse_quote!(let mut #k: usize = 0;)],
                        Some(parse_quote!(#r.is_none())),
                        parse_quote!(#r),
                    ))
                }
                ("fold", 2) => {
                    let acc = n.fresh("acc");
                    let ac = acc.clone();
                    let f = args[1].clone();
                    let init = &args[0];
                    let b = build(n, p, &mut |n, cur| {
                        let v = n.apply(&f, &[parse_quote!(#ac), cur], false)?;
                        Some(vec![parse_quote!(#ac = #v;)])
                    })?;
                    Some(loop_expr(b, vec![parse_quote!(let mut #acc = #init;)], None, parse_quote!(#acc)))
                }
                ("for_each", 1) => {
                    let f = args[0].clone();
                    let b = build(n, p, &mut |n, cur| {
                        let v = n.apply(&f, &[cur], false)?;
                        Some(vec![Stmt::Expr(v, Some(Default::default()))])
                    })?;
                    Some(loop_expr(b, vec![], None, parse_quote!(())))
                }
                ("count", 0) => {
                    let k = n.fresh("n");
                    let kc = k.clone();
                    let b = build(n, p, &mut |_, cur| Some(vec![parse_quote!(let _ = #cur;), parse_quote!(#kc = vx_inc(#kc);)]))?;
                    Some(loop_expr(b, vec![parse_quote!(let mut #k: usize = 0;)], None, parse_quote!(#k)))
                }
                ("sum", 0) => {
                    let k = n.fresh("n");
                    let kc = k.clone();
                    let ty = turbofish_ty(m);
                    let b = build(n, p, &mut |_, cur| Some(vec![parse_quote!(#kc = #kc + #cur;)]))?;
                    let init: Stmt = match ty {
                        Some(t) => parse_quote!(let mut #k: #t = 0;),
                        None => parse_quote!(let mut #k = 0;),
                    };
                    Some(loop_expr(b, vec![init], None, parse_quote!(#k)))
                }
                ("next", 0) => {
                    let r = n.fresh("r");
                    let rc = r.clone();
                    if !p.ads.iter().any(|a| matches!(a, Ad::Filter(_) | Ad::FilterMap(_))) {
                        // at most one element is taken
                        let Built { pre, conds, post } = build(n, p, &mut |_, cur| Some(vec![parse_quote!(#rc = Some(#cur);)]))?;
                        let mut it = conds.into_iter();
                        let mut cond = it.next().unwrap();
                        for c in it {
                            cond = parse_quote!(#cond && #c);
                        }
                        return Some(parse_quote!({ #(#pre)* let mut #r = None; if #cond { #(#post)* } #r }));
                    }
                    let b = build(n, p, &mut |_, cur| Some(vec![parse_quote!(#rc = Some(#cur);)]))?;
                    Some(loop_expr(b, vec![parse_quote!(let mut #r = None;)], Some(parse_quote!(#r.is_none())), parse_quote!(#r)))
                }
                _ => None,
            }
        }
        _ => None,
    }
}
