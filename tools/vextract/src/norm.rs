//! Normalisation of function bodies (see DESIGN.md for the list of rules).
use crate::elim;
use crate::*;
use quote::{format_ident, quote};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};

pub struct Norm<'a> {
    pub w: &'a World,
    pub n: usize,
    pub types: HashMap<String, String>,
    pub consts: HashMap<String, Ident>,
    pub hoisted: Vec<String>,
    pub notes: Vec<String>,
    pub fname: String,
    pub ret: String,
    pub local_fns: Vec<ItemFn>,
    pub opaque: bool,
}

// ---------------------------------------------------------------- types & sigs
fn map_type_path(p: &mut syn::Path) {
    let first = p.segments[0].ident.to_string();
    if EXT_CRATES.contains(&first.as_str()) && p.segments.len() > 1 {
        let t = quote!(#p);
        let np: syn::Path = syn::parse2(quote!(crate::ext::#t)).unwrap();
        *p = np;
        return;
    }
    if first == "std" && p.segments.len() > 2 {
        let s: Vec<String> = p.segments.iter().map(|x| x.ident.to_string()).collect();
        let key = s[1].as_str();
        if ["net", "io", "fmt", "cmp", "time", "process"].contains(&key) || (key == "sync" && s[2] != "Arc") || (key == "mem" && s[2] != "size_of") || (key == "collections" && s[2] == "HashSet") {
            let t = quote!(#p);
            let np: syn::Path = syn::parse2(quote!(crate::ext::#t)).unwrap();
            *p = np;
        }
    }
}
struct TypeNorm;
impl VisitMut for TypeNorm {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        map_type_path(p);
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
}
pub fn norm_type(t: &mut Type) {
    TypeNorm.visit_type_mut(t);
}
pub fn norm_generics(g: &mut Generics) {
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.bounds = t
                .bounds
                .clone()
                .into_iter()
                .filter(|b| match b {
                    TypeParamBound::Trait(t) => {
                        let n = t.path.segments.last().unwrap().ident.to_string();
                        !["Debug", "Display", "Future"].contains(&n.as_str())
                    }
                    TypeParamBound::Lifetime(_) => false,
                    _ => true,
                })
                .collect();
            if t.bounds.is_empty() {
                t.colon_token = None;
            }
        }
    }
    TypeNorm.visit_generics_mut(g);
}
pub fn norm_types_struct(s: &mut ItemStruct) {
    norm_generics(&mut s.generics);
    TypeNorm.visit_fields_mut(&mut s.fields);
}
pub fn norm_sig(s: &mut Signature) {
    norm_generics(&mut s.generics);
    TypeNorm.visit_signature_mut(s);
    let n = s.ident.to_string();
    if let Some(r) = rename_method(&n) {
        s.ident = format_ident!("{}", r);
    }
    // unsupported parameter patterns get plain names
    for (i, a) in s.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            if let Pat::Wild(_) = &*t.pat {
                let id = format_ident!("vx_p{}", i);
                *t.pat = parse_quote!(#id);
            }
        }
    }
}
pub fn norm_expr_paths(e: &mut Expr) {
    TypeNorm.visit_expr_mut(e);
}
pub fn norm_const_expr(e: &mut Expr) {
    struct C;
    impl VisitMut for C {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Some(n) = size_of(e) {
                let l = proc_macro2::Literal::usize_suffixed(n);
                *e = parse_quote!(#l);
            }
        }
    }
    C.visit_expr_mut(e);
}

fn size_of(e: &Expr) -> Option<usize> {
    let Expr::Call(c) = e else { return None };
    let Expr::Path(p) = &*c.func else { return None };
    let s = p.path.segments.last()?;
    if s.ident != "size_of" {
        return None;
    }
    let a = s.arguments.to_token_stream().to_string();
    let a: String = a.chars().filter(|c| c.is_alphanumeric() || *c == '_').collect();
    Some(match a.as_str() {
        "u8" | "i8" => 1,
        "u16" | "i16" => 2,
        "u32" | "i32" | "Ipv4Addr" | "stdnetIpv4Addr" => 4,
        "u64" | "i64" | "usize" | "isize" => 8,
        "u128" | "i128" | "Ipv6Addr" | "stdnetIpv6Addr" => 16,
        _ => return None,
    })
}

/// `C(x) if g => a, C(_) => b`  ->  `C(x) => if g { a } else { b }, C(_) => b`
/// where `g` calls something (a guard that calls is not followed through by the verifier)
fn guards(arms: &mut [Arm]) {
    fn ctor(p: &Pat) -> Option<(String, Option<&Pat>)> {
        match p {
            Pat::TupleStruct(t) if t.elems.len() == 1 => Some((t.path.segments.last()?.ident.to_string(), t.elems.first())),
            Pat::Path(q) => Some((q.path.segments.last()?.ident.to_string(), None)),
            Pat::Ident(i) if i.ident.to_string().starts_with(|c: char| c.is_uppercase()) => Some((i.ident.to_string(), None)),
            _ => None,
        }
    }
    for k in (0..arms.len()).rev() {
        let Some((_, g)) = &arms[k].guard else { continue };
        if !ts(g).contains('(') {
            continue;
        }
        let g = (**g).clone();
        let Some((n, Some(Pat::Ident(x)))) = ctor(&arms[k].pat) else { continue };
        if x.subpat.is_some() || x.by_ref.is_some() {
            continue;
        }
        let mut other = None;
        for b in &arms[k + 1..] {
            match (&b.pat, ctor(&b.pat)) {
                (Pat::Wild(_), _) if b.guard.is_none() => {
                    other = Some((None, (*b.body).clone()));
                    break;
                }
                (_, Some((m, q))) if m == n => {
                    if b.guard.is_none() {
                        match q {
                            Some(Pat::Wild(_)) => other = Some((None, (*b.body).clone())),
                            Some(Pat::Ident(y)) if y.subpat.is_none() && y.by_ref.is_none() => other = Some((Some((y.ident.clone(), y.mutability)), (*b.body).clone())),
                            _ => {}
                        }
                    }
                    break;
                }
                (_, Some(_)) => {}
                _ => break,
            }
        }
        let Some((y, o)) = other else { continue };
        let a = (*arms[k].body).clone();
        let v = &x.ident;
        arms[k].body = match y {
            Some((y, m)) if y != *v => parse_quote!({ if #g { #a } else { let #m #y = #v; #o } }),
            _ => parse_quote!({ if #g { #a } else { #o } }),
        };
        arms[k].guard = None;
        arms[k].comma = Some(Default::default());
    }
}
/// `x[..]`
fn all(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Index(i) => match &*i.index {
            Expr::Range(r) if r.start.is_none() && r.end.is_none() => {
                let x = &i.expr;
                Some(parse_quote!(#x.vx_all()))
            }
            _ => None,
        },
        _ => None,
    }
}
fn unref(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unref(&p.expr),
        Expr::Reference(r) => unref(&r.expr),
        _ => e,
    }
}
pub fn rename_method(n: &str) -> Option<&'static str> {
    Some(match n {
        "extend" | "extend_from_slice" => "vx_extend",
        "resize" => "vx_resize",
        "to_owned" => "vx_to_owned",
        "to_vec" => "vx_to_vec",
        "into_vec" => "vx_to_vec",
        "concat" => "vx_concat",
        "try_into" => "vx_try_into",
        "to_string" => "vx_to_string",
        "to_be_bytes" => "vx_to_be_bytes",
        "from_be_bytes" => "vx_from_be_bytes",
        "eq" => "vx_eq",
        "ne" => "vx_ne",
        "borrow" => "vx_borrow",
        "parse" => "vx_parse",
        "as_ref" => "vx_as_ref",
        "starts_with" => "vx_starts_with",
        "first" => "vx_first",
        _ => return None,
    })
}

// ---------------------------------------------------------------- vec! helpers
pub fn parse_vec(m: &Macro) -> Option<(Vec<Expr>, bool)> {
    if let Ok(r) = m.parse_body_with(|i: parse::ParseStream| {
        let a: Expr = i.parse()?;
        let _: Token![;] = i.parse()?;
        let b: Expr = i.parse()?;
        Ok(vec![a, b])
    }) {
        return Some((r, true));
    }
    m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
        .ok()
        .map(|p| (p.into_iter().collect(), false))
}
pub fn write_vec(m: &mut Macro, v: (Vec<Expr>, bool)) {
    let e = &v.0;
    if v.1 {
        let (a, b) = (&e[0], &e[1]);
        m.tokens = quote!(#a; #b);
    } else {
        m.tokens = quote!(#(#e),*);
    }
}

// ---------------------------------------------------------------- patterns
/// statements binding `pat` to the value of `e`
pub fn bind(n: &mut usize, pat: &Pat, e: Expr, out: &mut Vec<Stmt>) {
    match pat {
        Pat::Wild(_) => {
            *n += 1;
            let t = format_ident!("vx_w{}", *n);
            out.push(parse_quote!(let #t = #e;));
        }
        Pat::Type(t) => {
            // the annotation is kept only for plain identifiers
            if let Pat::Ident(_) = &*t.pat {
                out.push(parse_quote!(let #pat = #e;));
            } else {
                bind(n, &t.pat, e, out)
            }
        }
        Pat::Reference(r) => bind(n, &r.pat, parse_quote!(*#e), out),
        Pat::Paren(p) => bind(n, &p.pat, e, out),
        Pat::Tuple(t) => {
            if let Expr::Tuple(et) = &e {
                if et.elems.len() == t.elems.len() {
                    for (p, x) in t.elems.iter().zip(et.elems.iter()) {
                        bind(n, p, x.clone(), out);
                    }
                    return;
                }
            }
            *n += 1;
            let tmp = format_ident!("vx_t{}", *n);
            out.push(parse_quote!(let #tmp = #e;));
            for (i, p) in t.elems.iter().enumerate() {
                let ix = syn::Index::from(i);
                bind(n, p, parse_quote!(#tmp.#ix), out);
            }
        }
        p => out.push(parse_quote!(let #p = #e;)),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Option,
    Result,
    Unknown,
}

/// the kind of a receiver, from the number of arguments of the closure it is given
fn fn_kind(k: Kind, f: &Expr) -> Kind {
    match (k, f) {
        (Kind::Unknown, Expr::Closure(c)) => match c.inputs.len() {
            0 => Kind::Option,
            1 => Kind::Result,
            _ => k,
        },
        _ => k,
    }
}

/// an argument that is evaluated eagerly, but may as well be evaluated late or not at all:
/// no call but of constructors, no index, no arithmetic
fn eager_free(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Paren(p) => eager_free(&p.expr),
        Expr::Reference(p) => eager_free(&p.expr),
        Expr::Field(p) => eager_free(&p.base),
        Expr::Tuple(t) => t.elems.iter().all(eager_free),
        Expr::Array(t) => t.elems.iter().all(eager_free),
        Expr::Macro(m) => m.mac.path.is_ident("vec") && m.mac.tokens.is_empty(),
        Expr::Struct(s) => s.rest.is_none() && s.fields.iter().all(|f| eager_free(&f.expr)),
        Expr::Call(c) => {
            let ctor = match &*c.func {
                Expr::Path(p) => {
                    let l = p.path.segments.last().unwrap().ident.to_string();
                    l.chars().next().map_or(false, |c| c.is_uppercase()) || (c.args.is_empty() && l == "new")
                }
                _ => false,
            };
            ctor && c.args.iter().all(eager_free)
        }
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            m.args.is_empty() && ["to_string", "to_owned", "clone", "len", "to_vec", "as_str", "as_slice", "is_empty"].contains(&n.as_str()) && eager_free(&m.receiver)
        }
        _ => false,
    }
}

impl<'a> Norm<'a> {
    pub fn fresh(&mut self, p: &str) -> Ident {
        let i = format_ident!("vx_{}{}", p, self.n);
        self.n += 1;
        i
    }

    pub fn kind_of(&self, e: &Expr) -> Kind {
        let by_name = |n: &str| match n {
            "find" | "first" | "vx_first" | "last" | "get" | "next" | "ok" | "position" | "find_map" | "checked_add" | "checked_sub" | "checked_mul"
            | "pop" | "get_mut" | "err" | "single" | "strip_prefix" | "nth" | "min" | "max" | "split_first" => Kind::Option,
            "parse" | "try_into" | "vx_try_into" | "from_utf8" | "try_from" | "write" | "read" | "lock" | "send" | "recv" | "recv_from" | "connect"
            | "map_err" | "ok_or" | "ok_or_else" | "local_addr" | "hash" | "send_to" | "bind" | "timeout" | "or_else" => Kind::Result,
            n => match self.w.ret_kind.get(n).map(|s| s.as_str()) {
                Some("Option") => Kind::Option,
                Some("Result") => Kind::Result,
                _ => Kind::Unknown,
            },
        };
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "map" | "and_then" | "as_ref" | "vx_as_ref" | "cloned" | "copied" | "filter" | "as_deref" => self.kind_of(&m.receiver),
                    n => by_name(n),
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    return match n.as_str() {
                        "Some" => Kind::Option,
                        "Ok" | "Err" => Kind::Result,
                        n => by_name(n),
                    };
                }
                Kind::Unknown
            }
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if let Some(t) = self.types.get(&i.to_string()) {
                        let t = t.trim_start_matches('&').trim();
                        if t.starts_with("Option") {
                            return Kind::Option;
                        }
                        if t.starts_with("Result") {
                            return Kind::Result;
                        }
                    }
                }
                Kind::Unknown
            }
            Expr::Paren(p) => self.kind_of(&p.expr),
            Expr::Reference(p) => self.kind_of(&p.expr),
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind_of(e),
                _ => Kind::Unknown,
            },
            Expr::Match(m) => {
                for a in &m.arms {
                    let k = self.kind_of(&a.body);
                    if k != Kind::Unknown {
                        return k;
                    }
                }
                Kind::Unknown
            }
            _ => Kind::Unknown,
        }
    }

    /// closure or function path applied to the given argument values, as a block expression
    pub fn apply(&mut self, f: &Expr, args: &[Expr], option_ret: bool) -> Option<Expr> {
        match f {
            Expr::Closure(c) => {
                if c.inputs.len() != args.len() {
                    return None;
                }
                let mut st = vec![];
                for (p, a) in c.inputs.iter().zip(args) {
                    bind(&mut self.n, p, a.clone(), &mut st);
                }
                let body = (*c.body).clone();
                let body = if elim::has_escape(&body) {
                    let b: Block = match &body {
                        Expr::Block(b) => b.block.clone(),
                        e => parse_quote!({ #e }),
                    };
                    elim::elim_body(&b, &elim::Opt::new(option_ret))?
                } else {
                    body
                };
                Some(parse_quote!({ #(#st)* #body }))
            }
            Expr::Path(p) => Some(parse_quote!(#p(#(#args),*))),
            _ => None,
        }
    }

    /// Option / Result combinators taking closures -> match
    fn combinator(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let name = m.method.to_string();
        let recv = &m.receiver;
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let k = self.kind_of(recv);
        let is_fn = |e: &Expr| matches!(e, Expr::Closure(_) | Expr::Path(_));
        let v = self.fresh("v");
        let ve: Expr = parse_quote!(#v);
        match (name.as_str(), args.len()) {
            ("map", 1) if is_fn(&args[0]) => {
                let b = self.apply(&args[0], &[ve], false)?;
                match k {
                    Kind::Option => Some(parse_quote!(match #recv { Some(#v) => Some(#b), None => None })),
                    Kind::Result => Some(parse_quote!(match #recv { Ok(#v) => Ok(#b), Err(vx_e) => Err(vx_e) })),
                    _ => None,
                }
            }
            ("and_then", 1) if is_fn(&args[0]) => match k {
                Kind::Option => {
                    let b = self.apply(&args[0], &[ve], true)?;
                    Some(parse_quote!(match #recv { Some(#v) => #b, None => None }))
                }
                Kind::Result => {
                    let b = self.apply(&args[0], &[ve], false)?;
                    Some(parse_quote!(match #recv { Ok(#v) => #b, Err(vx_e) => Err(vx_e) }))
                }
                _ => None,
            },
            ("map_err", 1) if is_fn(&args[0]) => {
                let b = self.apply(&args[0], &[ve], false)?;
                Some(parse_quote!(match #recv { Ok(vx_k) => Ok(vx_k), Err(#v) => Err(#b) }))
            }
            ("map_or", 2) if is_fn(&args[1]) => {
                let b = self.apply(&args[1], &[ve], false)?;
                let d = &args[0];
                if !eager_free(d) {
                    return match k {
                        Kind::Result => Some(parse_quote!(match (#recv, #d) { (Ok(#v), _) => #b, (Err(_), vx_d) => vx_d })),
                        _ => Some(parse_quote!(match (#recv, #d) { (Some(#v), _) => #b, (None, vx_d) => vx_d })),
                    };
                }
                match k {
                    Kind::Result => Some(parse_quote!(match #recv { Ok(#v) => #b, Err(_) => #d })),
                    _ => Some(parse_quote!(match #recv { Some(#v) => #b, None => #d })),
                }
            }
            ("map_or_else", 2) if is_fn(&args[1]) => {
                let b = self.apply(&args[1], &[ve], false)?;
                match fn_kind(k, &args[0]) {
                    Kind::Result => {
                        let d = self.apply(&args[0], &[parse_quote!(vx_e)], false)?;
                        Some(parse_quote!(match #recv { Ok(#v) => #b, Err(vx_e) => #d }))
                    }
                    _ => {
                        let d = self.apply(&args[0], &[], false)?;
                        Some(parse_quote!(match #recv { Some(#v) => #b, None => #d }))
                    }
                }
            }
            ("unwrap_or_else", 1) if is_fn(&args[0]) => match fn_kind(k, &args[0]) {
                Kind::Option => {
                    let d = self.apply(&args[0], &[], false)?;
                    Some(parse_quote!(match #recv { Some(#v) => #v, None => #d }))
                }
                Kind::Result => {
                    let d = self.apply(&args[0], &[parse_quote!(vx_e)], false)?;
                    Some(parse_quote!(match #recv { Ok(#v) => #v, Err(vx_e) => #d }))
                }
                _ => None,
            },
            ("or_else", 1) if is_fn(&args[0]) => match fn_kind(k, &args[0]) {
                Kind::Option => {
                    let d = self.apply(&args[0], &[], true)?;
                    Some(parse_quote!(match #recv { Some(#v) => Some(#v), None => #d }))
                }
                Kind::Result => {
                    let d = self.apply(&args[0], &[parse_quote!(vx_e)], false)?;
                    Some(parse_quote!(match #recv { Ok(#v) => Ok(#v), Err(vx_e) => #d }))
                }
                _ => None,
            },
            ("unwrap_or", 1) => {
                let d = &args[0];
                let free = eager_free(d);
                match k {
                    Kind::Option if free => Some(parse_quote!(match #recv { Some(#v) => #v, None => #d })),
                    Kind::Result if free => Some(parse_quote!(match #recv { Ok(#v) => #v, Err(_) => #d })),
                    Kind::Option => Some(parse_quote!(match (#recv, #d) { (Some(#v), _) => #v, (None, vx_d) => vx_d })),
                    Kind::Result => Some(parse_quote!(match (#recv, #d) { (Ok(#v), _) => #v, (Err(_), vx_d) => vx_d })),
                    _ => None,
                }
            }
            ("unwrap_or_default", 0) => match k {
                Kind::Option => Some(parse_quote!(match #recv { Some(#v) => #v, None => vx_default() })),
                Kind::Result => Some(parse_quote!(match #recv { Ok(#v) => #v, Err(_) => vx_default() })),
                _ => None,
            },
            ("ok_or_else", 1) if is_fn(&args[0]) => {
                let d = self.apply(&args[0], &[], false)?;
                Some(parse_quote!(match #recv { Some(#v) => Ok(#v), None => Err(#d) }))
            }
            ("ok_or", 1) => {
                let d = &args[0];
                if eager_free(d) {
                    Some(parse_quote!(match #recv { Some(#v) => Ok(#v), None => Err(#d) }))
                } else {
                    Some(parse_quote!(match (#recv, #d) { (Some(#v), _) => Ok(#v), (None, vx_d) => Err(vx_d) }))
                }
            }
            ("is_some_and", 1) if is_fn(&args[0]) => {
                let b = self.apply(&args[0], &[ve], false)?;
                Some(parse_quote!(match #recv { Some(#v) => #b, None => false }))
            }
            ("is_ok_and", 1) if is_fn(&args[0]) => {
                let b = self.apply(&args[0], &[ve], false)?;
                Some(parse_quote!(match #recv { Ok(#v) => #b, Err(_) => false }))
            }
            ("then", 1) if matches!(&args[0], Expr::Closure(_)) => {
                let b = self.apply(&args[0], &[], false)?;
                Some(parse_quote!(if #recv { Some(#b) } else { None }))
            }
            ("then_some", 1) => {
                let b = &args[0];
                if eager_free(b) {
                    Some(parse_quote!(if #recv { Some(#b) } else { None }))
                } else {
                    Some(parse_quote!(match (#recv, #b) { (true, vx_d) => Some(vx_d), _ => None }))
                }
            }
            ("ok", 0) => Some(parse_quote!(match #recv { Ok(#v) => Some(#v), Err(_) => None })),
            _ => None,
        }
    }

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last()?.ident.to_string();
        match n.as_str() {
            "error" | "warn" | "info" | "debug" | "trace" | "println" | "eprintln" | "print" | "eprint" | "log" => Some(parse_quote!(())),
            "format" => Some(parse_quote!(vx_fmt())),
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(parse_quote!(vx_panic())),
            "assert" | "debug_assert" => {
                let a: Vec<Expr> = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?.into_iter().collect();
                let c = a.first()?;
                Some(parse_quote!(if !(#c) { vx_panic::<()>() }))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a: Vec<Expr> = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?.into_iter().collect();
                let (x, y) = (a.first()?, a.get(1)?);
                Some(parse_quote!(if !(#x == #y) { vx_panic::<()>() }))
            }
            "matches" => {
                let (e, p, g) = m
                    .parse_body_with(|i: parse::ParseStream| {
                        let e: Expr = i.parse()?;
                        let _: Token![,] = i.parse()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            let _: Token![if] = i.parse()?;
                            Some(i.parse::<Expr>()?)
                        } else {
                            None
                        };
                        let _: Option<Token![,]> = i.parse()?;
                        Ok((e, p, g))
                    })
                    .ok()?;
                Some(match g {
                    None => parse_quote!(match #e { #p => true, _ => false }),
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                })
            }
            _ => None,
        }
    }

    fn is_str(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p
                .path
                .get_ident()
                .and_then(|i| self.types.get(&i.to_string()))
                .map(|t| {
                    let t: String = t.chars().filter(|c| !c.is_whitespace()).collect();
                    ["&str", "String", "&String", "&'staticstr"].contains(&t.as_str())
                })
                .unwrap_or(false),
            Expr::Paren(p) => self.is_str(&p.expr),
            _ => false,
        }
    }

    fn post(&mut self, e: &mut Expr) {
        match e {
            Expr::Await(a) => {
                let x = (*a.base).clone();
                *e = x;
            }
            Expr::Async(a) => {
                let b = a.block.clone();
                if b.stmts.iter().any(elim::stmt_escape) {
                    match elim::elim_body(&b, &elim::Opt::new(false)) {
                        Some(x) => *e = parse_quote!({ #x }),
                        None => {
                            self.notes.push("early exit from an async block".into());
                            self.opaque = true;
                        }
                    }
                } else {
                    *e = parse_quote!(#b);
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let argc = m.args.len();
                if n == "len" && argc == 0 && self.is_str(&m.receiver) {
                    let r = &m.receiver;
                    *e = parse_quote!(vx_str_len(&#r));
                    return;
                }
                if n == "is_empty" && argc == 0 && self.is_str(&m.receiver) {
                    let r = &m.receiver;
                    *e = parse_quote!((vx_str_len(&#r) == 0));
                    return;
                }
                if (n == "to_string" || n == "to_owned" || n == "clone") && argc == 0 && self.is_str(&m.receiver) {
                    let r = &m.receiver;
                    *e = parse_quote!(vx_str_own(&#r));
                    return;
                }
                if (n == "copy_from_slice" || n == "clone_from_slice" || n == "fill") && argc == 1 {
                    let x = &m.args[0];
                    let f = if n == "fill" { format_ident!("vx_fill_range") } else { format_ident!("vx_copy_range") };
                    if let Expr::Index(ix) = &*m.receiver {
                        if let Expr::Range(r) = &*ix.index {
                            let rec = &ix.expr;
                            let a: Expr = r.start.as_ref().map(|b| (**b).clone()).unwrap_or_else(|| parse_quote!(0));
                            let b: Expr = match (&r.end, &r.limits) {
                                (Some(b), RangeLimits::HalfOpen(_)) => (**b).clone(),
                                (Some(b), RangeLimits::Closed(_)) => parse_quote!(#b + 1),
                                (None, _) => parse_quote!(#rec.len()),
                            };
                            *e = parse_quote!({ let vx_ra = #a; let vx_rb = #b; #rec.#f(vx_ra, vx_rb, #x) });
                            return;
                        }
                    }
                    let rec = &m.receiver;
                    *e = parse_quote!({ let vx_rb = #rec.len(); #rec.#f(0, vx_rb, #x) });
                    return;
                }
                if n == "splice" && argc == 2 {
                    if let Expr::Range(r) = &m.args[0] {
                        let rec = &m.receiver;
                        let x = &m.args[1];
                        let a: Expr = r.start.as_ref().map(|b| (**b).clone()).unwrap_or_else(|| parse_quote!(0));
                        let b: Expr = match (&r.end, &r.limits) {
                            (Some(b), RangeLimits::HalfOpen(_)) => (**b).clone(),
                            (Some(b), RangeLimits::Closed(_)) => parse_quote!(#b + 1),
                            (None, _) => parse_quote!(#rec.len()),
                        };
                        *e = parse_quote!(#rec.vx_splice(#a, #b, #x));
                        return;
                    }
                }
                if n == "concat" && argc == 0 {
                    // [a, b, c].concat()
                    let mut r = &*m.receiver;
                    loop {
                        match r {
                            Expr::Paren(p) => r = &p.expr,
                            Expr::Reference(p) => r = &p.expr,
                            _ => break,
                        }
                    }
                    let elems: Option<Vec<Expr>> = match r {
                        Expr::Array(a) => Some(a.elems.iter().cloned().collect()),
                        Expr::Macro(mc) if mc.mac.path.is_ident("vec") => parse_vec(&mc.mac).filter(|v| !v.1).map(|v| v.0),
                        _ => None,
                    };
                    if let Some(el) = elems {
                        let o = self.fresh("k");
                        *e = parse_quote!({ let mut #o: Vec<u8> = Vec::new(); #(#o.vx_extend(#el);)* #o });
                        return;
                    }
                }
                if n == "join" || n == "dedup" {
                    self.notes.push(format!("unsupported method {n}"));
                }
                if n == "clone" && argc == 0 {
                    return;
                }
                if let Some(r) = rename_method(&n) {
                    m.method = format_ident!("{}", r);
                }
            }
            Expr::Binary(b) => {
                if let BinOp::BitXor(_) = b.op {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(vx_xor(#l, #r));
                } else if let BinOp::BitXorAssign(_) = b.op {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(#l = vx_xor(#l, #r));
                } else if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (self.byte_seq(&b.left) || self.byte_seq(&b.right)) {
                    // sequences compared: by their contents
                    let (l, r) = (unref(&b.left), unref(&b.right));
                    let r: Expr = match all(r) {
                        Some(r) => r,
                        None if ts(r).ends_with(". vx_all ()") => r.clone(),
                        None => parse_quote!(&(#r)),
                    };
                    let l = all(l).unwrap_or_else(|| l.clone());
                    *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!((#l).vx_eq(#r)) } else { parse_quote!((#l).vx_ne(#r)) };
                }
            }

            Expr::Call(c) => {
                if let Some(n) = size_of(&Expr::Call(c.clone())) {
                    let l = proc_macro2::Literal::usize_suffixed(n);
                    *e = parse_quote!(#l);
                    return;
                }
                if let (Expr::Path(p), 1) = (&*c.func, c.args.len()) {
                    // <[u8; N]>::try_from(x)
                    if let Some(q) = &p.qself {
                        if matches!(&*q.ty, Type::Array(_)) && p.path.segments.len() == 1 && p.path.segments[0].ident == "try_from" {
                            let (t, a, o) = (&q.ty, &c.args[0], self.fresh("t"));
                            *e = parse_quote!({ let #o: Result<#t, VxErr> = (#a).vx_try_into(); #o });
                            return;
                        }
                    }
                }
                if let Expr::Path(p) = &mut *c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().clone();
                    let j = segs.join("::");
                    match j.as_str() {
                        "String::from_utf8" => {
                            *c.func = parse_quote!(vx_string_from_utf8);
                            return;
                        }
                        "String::from" => {
                            *c.func = parse_quote!(vx_str_own);
                            return;
                        }
                        "std::str::from_utf8" | "str::from_utf8" => {
                            *c.func = parse_quote!(vx_str_from_utf8);
                            return;
                        }
                        "Default::default" | "Vec::default" => {
                            *e = parse_quote!(vx_default());
                            return;
                        }
                        "usize::from" | "u64::from" | "u32::from" | "u16::from" | "i64::from" if c.args.len() == 1 => {
                            let (t, a) = (format_ident!("{}", segs[0]), &c.args[0]);
                            *e = parse_quote!(((#a) as #t));
                            return;
                        }
                        "Vec::from" => {
                            *c.func = parse_quote!(vx_vec_from);
                            return;
                        }
                        "std::mem::take" | "mem::take" => {
                            *c.func = parse_quote!(vx_take_vec);
                            return;
                        }
                        "std::cmp::min" | "cmp::min" | "usize::min" => {
                            *c.func = parse_quote!(vx_min);
                            return;
                        }
                        "std::cmp::max" | "cmp::max" | "usize::max" => {
                            *c.func = parse_quote!(vx_max);
                            return;
                        }
                        "drop" | "std::mem::drop" | "mem::drop" | "core::mem::drop" => {
                            *c.func = parse_quote!(vx_drop);
                            return;
                        }
                        "vx_awaited_task" => {
                            let a = c.args[0].clone();
                            *e = parse_quote!(vx_joined({ #a }));
                            return;
                        }
                        _ if is_spawn(&j) => {
                            // the task body is checked in place
                            let a = c.args[0].clone();
                            *e = parse_quote!({ vx_task_begin(); #a; vx_task_end(); });
                            return;
                        }
                        _ => {}
                    }
                    if segs.len() > 1 {
                        if let Some(r) = rename_method(&last) {
                            p.path.segments.last_mut().unwrap().ident = format_ident!("{}", r);
                        }
                    }
                }
            }
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if let Some(n) = self.consts.get(&i.to_string()) {
                        *e = parse_quote!(#n);
                    }
                }
            }
            _ => {}
        }
    }
}

impl<'a> VisitMut for Norm<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        map_type_path(p);
    }
    fn visit_type_array_mut(&mut self, t: &mut TypeArray) {
        visit_mut::visit_type_array_mut(self, t);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Pat::Type(t) = &l.pat {
            if let Pat::Ident(i) = &*t.pat {
                self.types.insert(i.ident.to_string(), ts(&t.ty));
            }
        }
        // let x: Vec<..> = pipeline (no turbofish): nothing special, inference does it
        visit_mut::visit_local_mut(self, l);
        if let (Pat::Ident(i), Some(e)) = (&l.pat, &l.init) {
            let k = i.ident.to_string();
            if self.byte_seq(&e.expr) {
                self.types.insert(k, "&vx_seq".into());
            } else {
                self.types.remove(&k);
            }
        }
        // `let &x = e` / `let (a, &b) = e`
        if l.init.as_ref().map(|i| i.diverge.is_none()).unwrap_or(false) {
            if let Pat::Reference(r) = &l.pat {
                let e = &l.init.as_ref().unwrap().expr;
                let p = (*r.pat).clone();
                let ne: Expr = parse_quote!(*#e);
                l.pat = p;
                l.init = Some(LocalInit { eq_token: Default::default(), expr: Box::new(ne), diverge: None });
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // local consts / fns are hoisted
        let mut stmts = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Const(mut k)) => {
                    let n = format_ident!("VX_{}_{}", self.fname, k.ident);
                    self.consts.insert(k.ident.to_string(), n.clone());
                    norm_const_expr(&mut k.expr);
                    k.ident = n;
                    k.vis = parse_quote!(pub);
                    k.attrs.clear();
                    self.hoisted.push(ts(&k));
                }
                Stmt::Item(Item::Static(mut k)) => {
                    let n = format_ident!("VX_{}_{}", self.fname, k.ident);
                    self.consts.insert(k.ident.to_string(), n.clone());
                    norm_const_expr(&mut k.expr);
                    norm_expr_paths(&mut k.expr);
                    norm_type(&mut k.ty);
                    let (t, e) = (&k.ty, &k.expr);
                    self.hoisted.push(format!("exec static {n}: {} ensures true {{ {} }}", ts(t), ts(e)));
                }
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(Item::Fn(f)) => self.local_fns.push(f),
                Stmt::Item(i) => {
                    self.notes.push("local item".into());
                    stmts.push(Stmt::Item(i));
                }
                Stmt::Macro(m) => {
                    if let Some(e) = self.macro_expr(&m.mac) {
                        if ts(&e).trim() == "()" {
                            if m.semi_token.is_none() {
                                stmts.push(Stmt::Expr(e, None));
                            }
                        } else {
                            stmts.push(Stmt::Expr(e, m.semi_token));
                        }
                    } else {
                        stmts.push(Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac }), m.semi_token));
                    }
                }
                s => stmts.push(s),
            }
        }
        // `let [a, b] = e;` and `let [a, rest @ ..] = e else { .. };`
        let mut out = vec![];
        for s in stmts {
            if let Stmt::Local(l) = &s {
                let (pat, ty) = match &l.pat {
                    Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                    p => (p.clone(), None),
                };
                if let (true, Some(init)) = (Self::is_slice_pat(&pat), &l.init) {
                    let t = format_ident!("vx_p{}", self.n + 1);
                    let x = &init.expr;
                    let (x, by_ref): (Expr, bool) = match (&init.diverge, &**x) {
                        (_, Expr::Reference(_)) => ((**x).clone(), true),
                        (None, _) => ((**x).clone(), false),
                        (Some(_), x) => Self::slice_scrut(x),
                    };
                    if let Some((c, b)) = self.slice_pat(&pat, &t, by_ref) {
                        self.n += 1;
                        out.push(match ty {
                            Some(ty) => parse_quote!(let #t: #ty = #x;),
                            None => parse_quote!(let #t = #x;),
                        });
                        if let (Some((_, d)), Some(c)) = (&init.diverge, c) {
                            out.push(Stmt::Expr(parse_quote!(if !(#c) #d), Some(Default::default())));
                        }
                        out.extend(b);
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        // Ok::<[u8; N], _>(x) -> Ok(x)   (the type is fixed by the use of x)
        if let Pat::TupleStruct(t) = p {
            if let Some(s) = t.path.segments.last_mut() {
                if s.ident == "Ok" || s.ident == "Some" || s.ident == "Err" {
                    s.arguments = PathArguments::None;
                }
            }
        }
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.patterns(e);
        // top-down: awaits, macros, pipelines, combinators
        while let Expr::Await(a) = e {
            let mut x = (*a.base).clone();
            if let Expr::Call(c) = &mut x {
                if let Expr::Path(p) = &*c.func {
                    if is_spawn(&p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")) {
                        // waiting for the task at once: not a task of its own
                        *c.func = parse_quote!(vx_awaited_task);
                    }
                }
            }
            *e = x;
        }
        for _ in 0..40 {
            if let Expr::Macro(m) = e {
                if m.mac.path.is_ident("vec") {
                    if let Some(mut v) = parse_vec(&m.mac) {
                        for x in v.0.iter_mut() {
                            self.visit_expr_mut(x);
                        }
                        if v.1 && ts(&v.0[0]).starts_with("vx_default") {
                            let n = &v.0[1];
                            *e = parse_quote!(vx_vec_default(#n));
                        } else if v.1 {
                            let (x, n) = (&v.0[0], &v.0[1]);
                            *e = parse_quote!(vx_rep(#x, #n));
                        } else {
                            write_vec(&mut m.mac, v);
                        }
                    }
                    return;
                }
                if let Some(x) = self.macro_expr(&m.mac) {
                    *e = x;
                    continue;
                }
            }
            if let Some(x) = crate::pipe::try_pipeline(self, e) {
                *e = x;
                continue;
            }
            if let Some(x) = self.combinator(e) {
                *e = x;
                continue;
            }
            break;
        }
        visit_mut::visit_expr_mut(self, e);
        self.post(e);
    }
}

impl<'a> Norm<'a> {
    /// a byte sequence, as far as the text shows
    fn byte_seq(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.byte_seq(&p.expr),
            Expr::Reference(r) => self.byte_seq(&r.expr),
            Expr::Index(i) => matches!(&*i.index, Expr::Range(_)),
            Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "to_vec" | "vx_to_vec" | "concat" | "as_slice" | "vx_all"),
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.types.get(&i.to_string())).map_or(false, |t| {
                matches!(t.replace(' ', "").as_str(), "&vx_seq" | "&[u8]" | "Vec<u8>" | "&Vec<u8>")
            }),
            _ => false,
        }
    }
    /// `&x` inside a pattern -> a fresh name, dereferenced where the pattern is in scope
    fn strip_refs(&mut self, p: &mut Pat, out: &mut Vec<Stmt>) {
        match p {
            Pat::Reference(r) => {
                let inner = (*r.pat).clone();
                let ok = match &inner {
                    Pat::Ident(i) => i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none(),
                    Pat::Wild(_) => true,
                    Pat::Tuple(t) => t.elems.iter().all(|x| matches!(x, Pat::Ident(_) | Pat::Wild(_))),
                    _ => false,
                };
                if ok {
                    let f = self.fresh("r");
                    if !matches!(inner, Pat::Wild(_)) {
                        out.push(parse_quote!(let #inner = *#f;));
                    }
                    *p = parse_quote!(#f);
                }
            }
            Pat::Paren(x) => self.strip_refs(&mut x.pat, out),
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|x| self.strip_refs(x, out)),
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|x| self.strip_refs(x, out)),
            Pat::Struct(t) => t.fields.iter_mut().for_each(|x| {
                x.colon_token = Some(Default::default());
                self.strip_refs(&mut x.pat, out)
            }),
            _ => {}
        }
    }
    /// a slice pattern over the slice named `s`: when it matches, and what it binds
    fn slice_pat(&mut self, p: &Pat, s: &Ident, by_ref: bool) -> Option<(Option<Expr>, Vec<Stmt>)> {
        let p = match p {
            Pat::Slice(p) => p,
            Pat::Paren(q) => return self.slice_pat(&q.pat, s, by_ref),
            Pat::Wild(_) => return Some((None, vec![])),
            _ => return None,
        };
        let is_rest = |p: &Pat| match p {
            Pat::Rest(_) => true,
            Pat::Ident(i) => matches!(&i.subpat, Some((_, b)) if matches!(**b, Pat::Rest(_))),
            _ => false,
        };
        let n = p.elems.len();
        let rest = p.elems.iter().position(is_rest);
        let mut conds: Vec<Expr> = vec![];
        let mut binds: Vec<Stmt> = vec![];
        match rest {
            None => conds.push(parse_quote!(#s.len() == #n)),
            Some(_) if n > 1 => {
                let k = n - 1;
                conds.push(parse_quote!(#s.len() >= #k))
            }
            _ => {}
        }
        for (j, q) in p.elems.iter().enumerate() {
            let back = n - j;
            let ix: Expr = match rest {
                Some(r) if j > r => parse_quote!(#s.len() - #back),
                _ => parse_quote!(#j),
            };
            match q {
                Pat::Rest(_) | Pat::Wild(_) => {}
                Pat::Ident(i) if is_rest(q) => {
                    let x = &i.ident;
                    let after = back - 1;
                    if after == 0 {
                        binds.push(parse_quote!(let #x = &#s[#j..];));
                    } else {
                        binds.push(parse_quote!(let #x = &#s[#j..#s.len() - #after];));
                    }
                }
                Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                    let x = &i.ident;
                    binds.push(if by_ref { parse_quote!(let #x = &#s[#ix];) } else { parse_quote!(let #x = #s[#ix];) });
                }
                Pat::Lit(l) => conds.push(parse_quote!(#s[#ix] == #l)),
                _ => return None,
            }
        }
        let mut it = conds.into_iter();
        let c = it.next().map(|f| it.fold(f, |a, c| parse_quote!(#a && #c)));
        Some((c, binds))
    }
    /// what a slice pattern looks at: a place is borrowed, and its elements are then bound by value
    fn slice_scrut(e: &Expr) -> (Expr, bool) {
        match e {
            Expr::Index(_) => (parse_quote!(&#e), false),
            e => (e.clone(), true),
        }
    }
    fn is_slice_pat(p: &Pat) -> bool {
        match p {
            Pat::Slice(_) => true,
            Pat::Paren(q) => Self::is_slice_pat(&q.pat),
            _ => false,
        }
    }
    /// match / if let / while let over slice patterns -> length tests and indexing
    fn slices(&mut self, e: &Expr) -> Option<Expr> {
        let s = format_ident!("vx_p{}", self.n + 1);
        let new = match e {
            Expr::Match(m) if m.arms.iter().any(|a| Self::is_slice_pat(&a.pat)) => {
                let (x, by_ref) = Self::slice_scrut(&m.expr);
                let mut out: Option<Expr> = None;
                for a in m.arms.iter().rev() {
                    let (c, b) = self.slice_pat(&a.pat, &s, by_ref)?;
                    let body = &a.body;
                    let c: Option<Expr> = match (&a.guard, c) {
                        (None, c) => c,
                        (Some((_, g)), None) => Some(parse_quote!({ #(#b)* #g })),
                        (Some((_, g)), Some(c)) => Some(parse_quote!(#c && { #(#b)* #g })),
                    };
                    out = Some(match (c, out) {
                        // the last arm is reached whenever no other one matches
                        (_, None) if a.guard.is_none() => parse_quote!({ #(#b)* #body }),
                        (_, None) => return None,
                        (None, Some(_)) => parse_quote!({ #(#b)* #body }),
                        (Some(c), Some(o)) => parse_quote!(if #c { #(#b)* #body } else { #o }),
                    });
                }
                let o = out?;
                parse_quote!({ let #s = #x; #o })
            }
            Expr::If(i) => match &*i.cond {
                Expr::Let(c) if Self::is_slice_pat(&c.pat) => {
                    let (x, by_ref) = Self::slice_scrut(&c.expr);
                    let (c, b) = self.slice_pat(&c.pat, &s, by_ref)?;
                    let c = c.unwrap_or_else(|| parse_quote!(true));
                    let t = &i.then_branch.stmts;
                    match &i.else_branch {
                        Some((_, o)) => parse_quote!({ let #s = #x; if #c { #(#b)* #(#t)* } else #o }),
                        None => parse_quote!({ let #s = #x; if #c { #(#b)* #(#t)* } }),
                    }
                }
                _ => return None,
            },
            Expr::While(w) if w.label.is_none() => match &*w.cond {
                Expr::Let(c) if Self::is_slice_pat(&c.pat) => {
                    let (x, by_ref) = Self::slice_scrut(&c.expr);
                    let (c, b) = self.slice_pat(&c.pat, &s, by_ref)?;
                    let c = c?;
                    let t = &w.body.stmts;
                    match &x {
                        // a local: the loop condition can name it
                        Expr::Path(p) if p.path.get_ident().is_some() => {
                            let v = p.path.get_ident().unwrap();
                            struct R(Ident, Ident);
                            impl VisitMut for R {
                                fn visit_ident_mut(&mut self, i: &mut Ident) {
                                    if *i == self.0 {
                                        *i = self.1.clone();
                                    }
                                }
                            }
                            let mut c = c;
                            R(s.clone(), v.clone()).visit_expr_mut(&mut c);
                            parse_quote!(while #c { let #s = #x; #(#b)* #(#t)* })
                        }
                        _ => parse_quote!(loop { let #s = #x; if !(#c) { break; } #(#b)* #(#t)* }),
                    }
                }
                _ => return None,
            },
            _ => return None,
        };
        self.n += 1;
        Some(new)
    }
    fn patterns(&mut self, e: &mut Expr) {
        if let Some(x) = self.slices(e) {
            *e = x;
        }
        match e {
            Expr::Match(m) => {
                let mut arms = vec![];
                for a in std::mem::take(&mut m.arms) {
                    // an or-pattern with a guard: one arm per alternative
                    match (&a.pat, &a.guard) {
                        (Pat::Or(o), Some(_)) => {
                            for c in &o.cases {
                                let mut b = a.clone();
                                b.pat = c.clone();
                                b.comma = Some(Default::default());
                                arms.push(b);
                            }
                        }
                        _ => arms.push(a),
                    }
                }
                for a in arms.iter_mut() {
                    let mut l = vec![];
                    self.strip_refs(&mut a.pat, &mut l);
                    if !l.is_empty() {
                        let b = &a.body;
                        a.body = parse_quote!({ #(#l)* #b });
                        if let Some((_, g)) = &mut a.guard {
                            let x = (**g).clone();
                            **g = parse_quote!({ #(#l)* #x });
                        }
                        a.comma = Some(Default::default());
                    }
                }
                guards(&mut arms);
                m.arms = arms;
            }
            Expr::If(i) => {
                if let Expr::Let(c) = &mut *i.cond {
                    let mut l = vec![];
                    self.strip_refs(&mut c.pat, &mut l);
                    i.then_branch.stmts.splice(0..0, l);
                }
            }
            Expr::While(w) => {
                if let Expr::Let(c) = &mut *w.cond {
                    let mut l = vec![];
                    self.strip_refs(&mut c.pat, &mut l);
                    w.body.stmts.splice(0..0, l);
                }
            }
            _ => {}
        }
    }
}

fn is_spawn(j: &str) -> bool {
    matches!(j, "spawn" | "tokio::spawn" | "crate::ext::tokio::spawn" | "crate::ext::tokio::task::spawn" | "tokio::task::spawn" | "task::spawn")
}

/// statements that do nothing: `let _ = 0;`, `let _ = &x;`, `();`
struct NoEffect;
impl VisitMut for NoEffect {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| {
            match s {
                Stmt::Local(l) => match (&l.pat, &l.init) {
                    (Pat::Wild(_), Some(x)) if x.diverge.is_none() && l.attrs.is_empty() => !idle(&x.expr, true),
                    _ => true,
                },
                Stmt::Expr(e, Some(_)) => !idle(e, false),
                _ => true,
            }
        });
        visit_mut::visit_block_mut(self, b);
    }
}
fn idle(e: &Expr, place: bool) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Tuple(t) => t.elems.is_empty(),
        Expr::Paren(p) => idle(&p.expr, place),
        Expr::Reference(r) => r.mutability.is_none() && idle(&r.expr, true),
        Expr::Path(p) => place && p.qself.is_none() && p.path.get_ident().is_some(),
        _ => false,
    }
}

pub fn normalize_fn(w: &World, f: &mut FnInfo) {
    let mut types = HashMap::new();
    for a in &f.item.sig.inputs {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(p) = &*t.pat {
                types.insert(p.ident.to_string(), ts(&t.ty));
            }
        }
    }
    norm_sig(&mut f.item.sig);
    let ret = match &f.item.sig.output {
        ReturnType::Type(_, t) => ts(t),
        _ => String::new(),
    };
    elim::reset();
    let mut n = Norm {
        w,
        n: 0,
        types,
        consts: HashMap::new(),
        hoisted: vec![],
        notes: vec![],
        fname: f.path.replace("::", "_"),
        ret,
        local_fns: vec![],
        opaque: false,
    };
    let mut b = f.item.block.clone();
    let mut fu = crate::futs::Futs::new(w.fns.iter().filter(|x| x.was_async).map(|x| x.item.sig.ident.to_string()));
    syn::visit::Visit::visit_block(&mut fu, &b);
    if let Some(x) = fu.bad {
        n.notes.push(format!("a future that is not waited for at once ({x})"));
        n.opaque = true;
    }
    NoEffect.visit_block_mut(&mut b);
    crate::pipe::mark_tail(&mut n, &mut b);
    n.visit_block_mut(&mut b);
    if n.opaque {
        f.opaque = true;
    }
    if !n.local_fns.is_empty() {
        n.notes.push("local fn".into());
        f.opaque = true;
    }
    f.item.block = b;
    f.hoisted = n.hoisted;
    f.notes.extend(n.notes);
}
