//! vextract: mechanical extraction of the real code of /repo/radius into the
//! Rust subset that Verus accepts.  Every transformation is listed in
//! /verif/DESIGN.md ("What the extraction does").  Output: JSON on stdout.
//!
//! usage: vextract <repo> <feature> <contracts-list-file>
mod elim;
mod futs;
mod fmtnorm;
mod inline;
mod norm;
mod out;
mod pipe;

use proc_macro2::TokenStream;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Cfg {
    pub feature: String,
}

fn cfg_eval(cfg: &Cfg, m: &Meta) -> bool {
    match m {
        Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                    return s.value() == cfg.feature || s.value() == "default" && cfg.feature == "md5";
                }
            }
            let s = m.to_token_stream().to_string();
            s.contains("target_os = \"linux\"") || s.contains("target_pointer_width = \"64\"") || s.contains("panic = \"unwind\"")
        }
        Meta::Path(p) => p.is_ident("unix") || p.is_ident("debug_assertions"),
        Meta::List(l) => {
            let args = l
                .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                .unwrap_or_default();
            if l.path.is_ident("all") {
                args.iter().all(|a| cfg_eval(cfg, a))
            } else if l.path.is_ident("any") {
                args.iter().any(|a| cfg_eval(cfg, a))
            } else if l.path.is_ident("not") {
                !args.iter().any(|a| cfg_eval(cfg, a))
            } else {
                false
            }
        }
    }
}

pub fn cfg_keep(cfg: &Cfg, attrs: &[Attribute]) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            match a.parse_args::<Meta>() {
                Ok(m) => cfg_eval(cfg, &m),
                Err(_) => true,
            }
        } else {
            !a.path().is_ident("test")
        }
    })
}

/// cfg filtering below item level (fields, variants, arms, statements, impl items)
struct CfgVisit<'a>(&'a Cfg);
fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::If(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Block(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::Return(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        Expr::While(x) => &x.attrs,
        Expr::ForLoop(x) => &x.attrs,
        _ => &[],
    }
}
impl<'a> VisitMut for CfgVisit<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let c = self.0;
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => cfg_keep(c, &l.attrs),
            Stmt::Item(_) => true,
            Stmt::Expr(e, _) => cfg_keep(c, expr_attrs(e)),
            Stmt::Macro(m) => cfg_keep(c, &m.attrs),
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        let c = self.0;
        m.arms.retain(|a| cfg_keep(c, &a.attrs));
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("cfg") {
                if let Ok(meta) = m.mac.parse_body::<Meta>() {
                    let v = cfg_eval(self.0, &meta);
                    *e = parse_quote!(#v);
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::ExternCrate(x) => &x.attrs,
        _ => &[],
    }
}

/// the `use` declarations inside function bodies
struct LocalUses<'a> {
    cfg: &'a Cfg,
    out: Vec<(String, Option<String>)>,
}
impl<'ast, 'a> syn::visit::Visit<'ast> for LocalUses<'a> {
    fn visit_impl_item_fn(&mut self, f: &'ast ImplItemFn) {
        if cfg_keep(self.cfg, &f.attrs) {
            syn::visit::visit_impl_item_fn(self, f);
        }
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        if let Stmt::Item(Item::Use(u)) = s {
            if cfg_keep(self.cfg, &u.attrs) {
                flatten_use(&u.tree, "", &mut self.out);
            }
        }
        syn::visit::visit_stmt(self, s);
    }
}

/// drops attributes, visibility -> pub, async, lifetimes 'static bounds on traits, Debug bounds
struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        *v = parse_quote!(pub);
    }
    fn visit_signature_mut(&mut self, s: &mut Signature) {
        s.asyncness = None;
        visit_mut::visit_signature_mut(self, s);
    }
}

#[derive(Clone)]
pub struct FnInfo {
    pub path: String,
    pub module: String,
    pub self_ty: Option<String>,
    pub item: ImplItemFn, // uniform representation
    pub is_pub: bool,
    pub trait_impl: Option<String>,
    pub file: String,
    pub line: usize,
    pub hoisted: Vec<String>,
    pub notes: Vec<String>,
    pub opaque: bool,
    pub was_async: bool,
}

pub enum OutItem {
    Raw(String),
    Fn(usize),
    Impl { header: String, items: Vec<OutItem> },
    Trait { header: String, fns: Vec<Value> },
}

pub struct Module {
    pub path: String,
    pub file: String,
    pub items: Vec<OutItem>,
}

pub struct World {
    pub fns: Vec<FnInfo>,
    pub modules: Vec<Module>,
    pub contracted: HashSet<String>,
    pub errors: Vec<String>,
    /// method / fn name -> kind of result ("Option" | "Result" | "other"), if unambiguous
    pub ret_kind: BTreeMap<String, String>,
    /// struct field name -> type name ("" when ambiguous)
    pub field_ty: BTreeMap<String, String>,
}

fn lib_file(base: &Path, name: &str) -> Option<PathBuf> {
    let a = base.join(format!("{name}.rs"));
    if a.exists() {
        return Some(a);
    }
    let b = base.join(name).join("mod.rs");
    if b.exists() {
        return Some(b);
    }
    None
}

fn derive_list(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Ok(p) = a.parse_args_with(punctuated::Punctuated::<Path2, Token![,]>::parse_terminated) {
                for x in p {
                    v.push(x.0);
                }
            }
        }
    }
    v
}
struct Path2(String);
impl parse::Parse for Path2 {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let p: syn::Path = i.parse()?;
        Ok(Path2(p.segments.last().unwrap().ident.to_string()))
    }
}

pub fn ts(t: impl ToTokens) -> String {
    out::fmt(t.to_token_stream())
}

fn flatten_use(t: &UseTree, pre: &str, o: &mut Vec<(String, Option<String>)>) {
    match t {
        UseTree::Path(p) => flatten_use(&p.tree, &format!("{pre}{}::", p.ident), o),
        UseTree::Name(n) => {
            if n.ident == "self" {
                o.push((pre.trim_end_matches("::").to_string(), None))
            } else {
                o.push((format!("{pre}{}", n.ident), None))
            }
        }
        UseTree::Rename(r) => o.push((format!("{pre}{}", r.ident), Some(r.rename.to_string()))),
        UseTree::Glob(_) => o.push((format!("{pre}*"), None)),
        UseTree::Group(g) => {
            for t in &g.items {
                flatten_use(t, pre, o)
            }
        }
    }
}

pub const EXT_CRATES: &[&str] = &[
    "md5", "openssl", "rand", "chrono", "tokio", "thiserror", "num_enum", "log", "async_trait",
];

fn map_use(p: &str, ren: &Option<String>, mods: &HashSet<String>) -> Option<String> {
    let first = p.split("::").next().unwrap();
    let r = ren.as_ref().map(|x| format!(" as {x}")).unwrap_or_default();
    if ["crate", "super", "self"].contains(&first) {
        return Some(format!("use {p}{r};"));
    }
    if ["log", "thiserror", "num_enum", "async_trait"].contains(&first) {
        return None;
    }
    if EXT_CRATES.contains(&first) {
        return Some(format!("use crate::ext::{p}{r};"));
    }
    if first == "std" || first == "core" && !mods.contains("core") || first == "alloc" {
        let last = p.rsplit("::").next().unwrap();
        // traits replaced by the prelude
        if ["TryInto", "TryFrom", "Debug", "Display", "Borrow", "Future", "Iterator", "FromIterator", "IntoIterator", "Write", "Hash", "ToOwned"].contains(&last) {
            return None;
        }
        for o in [
            "std::net::Ipv4Addr", "std::net::Ipv6Addr", "std::net::SocketAddr", "std::sync::RwLock", "std::sync::Mutex",
            "std::collections::HashSet", "std::time::Duration", "std::time::SystemTime", "std::time::Instant", "std::time::UNIX_EPOCH", "std::process",
            "std::sync::atomic", "std::sync::atomic::AtomicU8", "std::sync::atomic::AtomicU16", "std::sync::atomic::AtomicU32", "std::sync::atomic::AtomicU64",
            "std::sync::atomic::AtomicUsize", "std::sync::atomic::AtomicBool", "std::sync::atomic::Ordering", "std::io", "std::cmp::min", "std::cmp::max", "std::io::Error",
            "std::mem::take", "std::fmt::Formatter", "std::fmt", "std::net", "std::mem", "std::cmp",
        ] {
            if p == o {
                return Some(format!("use crate::ext::{p}{r};"));
            }
        }
        return Some(format!("use {p}{r};"));
    }
    Some(format!("use {p}{r};"))
}

struct Builder<'a> {
    cfg: &'a Cfg,
    w: World,
    repo: PathBuf,
    src: PathBuf,
    defines: BTreeMap<String, Vec<String>>,
}

impl<'a> Builder<'a> {
    fn module(&mut self, path: &str, file: &Path, dir: &Path) {
        let text = std::fs::read_to_string(file).unwrap_or_default();
        let parsed = match syn::parse_file(&text) {
            Ok(f) => f,
            Err(e) => {
                self.w.errors.push(format!("{}: {e}", file.display()));
                return;
            }
        };
        self.items(path, parsed.items, file, dir);
    }

    fn items(&mut self, path: &str, items: Vec<Item>, file: &Path, dir: &Path) {
        let rel = file.strip_prefix(&self.repo).unwrap_or(file).display().to_string();
        let mut out = vec![];
        // `use` inside functions: hoisted to the module
        let mut lu = LocalUses { cfg: self.cfg, out: vec![] };
        let mut named: HashSet<String> = HashSet::new();
        for it in &items {
            if !cfg_keep(self.cfg, item_attrs(it)) {
                continue;
            }
            match it {
                Item::Mod(_) => {}
                Item::Use(u) => {
                    let mut v = vec![];
                    flatten_use(&u.tree, "", &mut v);
                    named.extend(v.into_iter().map(|(p, r)| r.unwrap_or_else(|| p.rsplit("::").next().unwrap().to_string())));
                }
                it => syn::visit::Visit::visit_item(&mut lu, it),
            }
        }
        for (p, r) in lu.out {
            let n = r.clone().unwrap_or_else(|| p.rsplit("::").next().unwrap().to_string());
            if n == "*" || named.insert(n) {
                if let Some(s) = map_use(&p, &r, &HashSet::new()) {
                    out.push(OutItem::Raw(s));
                }
            }
        }
        for it in items {
            if !cfg_keep(self.cfg, item_attrs(&it)) {
                continue;
            }
            match it {
                Item::Mod(m) => {
                    let sub = if path.is_empty() { m.ident.to_string() } else { format!("{path}::{}", m.ident) };
                    if let Some((_, items)) = m.content {
                        self.items(&sub, items, file, &dir.join(m.ident.to_string()));
                    } else if let Some(f) = lib_file(dir, &m.ident.to_string()) {
                        let d = dir.join(m.ident.to_string());
                        self.module(&sub, &f, &d);
                    }
                }
                Item::Use(u) => {
                    let mut v = vec![];
                    flatten_use(&u.tree, "", &mut v);
                    let mods = HashSet::new();
                    for (p, r) in v {
                        if let Some(s) = map_use(&p, &r, &mods) {
                            out.push(OutItem::Raw(s));
                        }
                    }
                }
                Item::Fn(f) => {
                    let line = f.sig.ident.span().start().line;
                    let is_pub = matches!(f.vis, Visibility::Public(_));
                    let item = ImplItemFn { attrs: vec![], vis: f.vis, defaultness: None, sig: f.sig, block: *f.block };
                    let name = item.sig.ident.to_string();
                    let id = self.add_fn(format!("{path}::{name}"), path, None, item, is_pub, None, &rel, line);
                    out.push(OutItem::Fn(id));
                }
                Item::Impl(im) => self.do_impl(path, im, &rel, &mut out),
                Item::Trait(t) => {
                    let mut t = t;
                    CfgVisit(self.cfg).visit_item_trait_mut(&mut t);
                    let fns: Vec<Value> = t
                        .items
                        .iter()
                        .filter_map(|i| match i {
                            TraitItem::Fn(f) => {
                                let mut f = f.clone();
                                Strip.visit_trait_item_fn_mut(&mut f);
                                norm::norm_sig(&mut f.sig);
                                let mut v = out::sig_json(&f.sig, &format!("{path}::{}::{}", t.ident, f.sig.ident));
                                v["has_default"] = json!(f.default.is_some());
                                Some(v)
                            }
                            _ => None,
                        })
                        .collect();
                    let ident = &t.ident;
                    let gen = &t.generics;
                    let header = format!("pub trait {}{}", ident, ts(gen));
                    self.w.modules_note(path, &t);
                    out.push(OutItem::Trait { header, fns });
                }
                Item::Struct(s) => {
                    let d = derive_list(&s.attrs);
                    let mut s = s;
                    let c = self.cfg;
                    if let Fields::Named(n) = &mut s.fields {
                        n.named = n.named.clone().into_iter().filter(|f| cfg_keep(c, &f.attrs)).collect();
                    }
                    Strip.visit_item_struct_mut(&mut s);
                    norm::norm_types_struct(&mut s);
                    for f in s.fields.iter() {
                        if let (Some(i), Type::Path(p)) = (&f.ident, &f.ty) {
                            let t = p.path.segments.last().unwrap().ident.to_string();
                            let e = self.w.field_ty.entry(i.to_string()).or_insert_with(|| t.clone());
                            if *e != t {
                                *e = String::new();
                            }
                        }
                    }
                    let name = s.ident.to_string();
                    let gens = !s.generics.params.is_empty();
                    let copy = d.iter().any(|x| x == "Copy");
                    let mut text = String::new();
                    if copy {
                        text.push_str("#[derive(Copy, Clone)]\n");
                    }
                    text.push_str(&ts(&s));
                    out.push(OutItem::Raw(text));
                    if d.iter().any(|x| x == "Clone") && !copy && !gens {
                        out.push(OutItem::Raw(clone_impl(&name)));
                    }
                    self.defines.entry(path.to_string()).or_default().push(format!("struct {name}"));
                }
                Item::Enum(e) => {
                    let d = derive_list(&e.attrs);
                    let mut e = e;
                    let c = self.cfg;
                    e.variants = e.variants.clone().into_iter().filter(|f| cfg_keep(c, &f.attrs)).collect();
                    Strip.visit_item_enum_mut(&mut e);
                    for v in e.variants.iter_mut() {
                        for f in v.fields.iter_mut() {
                            f.vis = Visibility::Inherited;
                        }
                    }
                    let name = e.ident.to_string();
                    let plain = e.variants.iter().all(|v| matches!(v.fields, Fields::Unit));
                    let copy = d.iter().any(|x| x == "Copy");
                    let mut text = String::new();
                    if copy && plain {
                        text.push_str("#[derive(Copy, Clone, PartialEq, Eq, Structural)]\n");
                    } else if plain && d.iter().any(|x| x == "PartialEq") {
                        text.push_str("#[derive(PartialEq, Eq, Structural)]\n");
                    }
                    if plain && e.variants.iter().any(|v| v.discriminant.is_some()) {
                        text.push_str("#[repr(u8)]\n");
                    }
                    text.push_str(&ts(&e));
                    out.push(OutItem::Raw(text));
                    if d.iter().any(|x| x == "Clone") && !(copy && plain) {
                        out.push(OutItem::Raw(clone_impl(&name)));
                    }
                    if d.iter().any(|x| x == "TryFromPrimitive") && plain {
                        out.push(OutItem::Raw(try_from_impl(&e)));
                    }
                }
                Item::Const(k) => {
                    let mut k = k;
                    Strip.visit_item_const_mut(&mut k);
                    norm::norm_const_expr(&mut k.expr);
                    norm::norm_type(&mut k.ty);
                    out.push(OutItem::Raw(ts(&k)));
                }
                Item::Static(mut k) => {
                    // verified code may refer to a static; nothing is known about what it holds
                    norm::norm_const_expr(&mut k.expr);
                    norm::norm_type(&mut k.ty);
                    norm::norm_expr_paths(&mut k.expr);
                    let (n, t, e) = (&k.ident, &k.ty, &k.expr);
                    out.push(OutItem::Raw(format!("exec static {n}: {} ensures true {{ {} }}", ts(t), ts(e))));
                }
                Item::Type(t) => {
                    let mut t = t;
                    Strip.visit_item_type_mut(&mut t);
                    out.push(OutItem::Raw(ts(&t)));
                }
                Item::Macro(m) => {
                    let n = m.mac.path.to_token_stream().to_string();
                    if m.ident.is_some() {
                        self.w.errors.push(format!("{path}: macro_rules dropped"));
                    } else if n != "compile_error" {
                        self.w.errors.push(format!("{path}: item macro {n} dropped"));
                    }
                }
                Item::ExternCrate(_) => {}
                _ => self.w.errors.push(format!("{path}: item dropped")),
            }
        }
        self.w.modules.push(Module { path: path.to_string(), file: rel, items: out });
    }

    fn do_impl(&mut self, path: &str, im: ItemImpl, rel: &str, out: &mut Vec<OutItem>) {
        let mut im = im;
        let c = self.cfg;
        im.items.retain(|i| match i {
            ImplItem::Fn(f) => cfg_keep(c, &f.attrs),
            ImplItem::Const(f) => cfg_keep(c, &f.attrs),
            _ => true,
        });
        let ty = match &*im.self_ty {
            Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            t => ts(t),
        };
        let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        let mut items = vec![];
        for i in &im.items {
            match i {
                ImplItem::Fn(f) => {
                    let line = f.sig.ident.span().start().line;
                    let is_pub = matches!(f.vis, Visibility::Public(_)) || tr.is_some();
                    let name = match &tr {
                        Some(t) => format!("{path}::{ty}::{t}::{}", f.sig.ident),
                        None => format!("{path}::{ty}::{}", f.sig.ident),
                    };
                    let mut f = f.clone();
                    let twin = if tr.as_deref() == Some("Debug") {
                        CfgVisit(self.cfg).visit_impl_item_fn_mut(&mut f);
                        fmtnorm::debug_fn(&mut f)
                    } else {
                        None
                    };
                    let id = self.add_fn(name, path, Some(ty.clone()), f, is_pub, tr.clone(), rel, line);
                    items.push(OutItem::Fn(id));
                    if let Some(t) = twin {
                        let n = format!("{path}::{ty}::Debug::{}", t.sig.ident);
                        let id = self.add_fn(n, path, Some(ty.clone()), t, false, tr.clone(), rel, line);
                        items.push(OutItem::Fn(id));
                    }
                }
                ImplItem::Const(k) => {
                    let mut k = k.clone();
                    Strip.visit_impl_item_const_mut(&mut k);
                    if tr.is_some() {
                        k.vis = Visibility::Inherited;
                    }
                    norm::norm_const_expr(&mut k.expr);
                    items.push(OutItem::Raw(ts(&k)));
                }
                ImplItem::Type(k) => items.push(OutItem::Raw(ts(k))),
                _ => {}
            }
        }
        let (ig, _, wc) = im.generics.split_for_impl();
        let mut gen = im.generics.clone();
        norm::norm_generics(&mut gen);
        let _ = (ig, wc);
        let (ig, _, wc) = gen.split_for_impl();
        let self_ty = &im.self_ty;
        // the Debug impl is emitted as an inherent impl (its std trait is outside the verifier)
        let header = match &im.trait_ {
            Some((_, p, _)) if !["Debug", "Display"].contains(&tr.as_ref().unwrap().as_str()) => {
                format!("impl{} {} for {} {}", ts(ig), ts(p), ts(self_ty), ts(wc))
            }
            _ => format!("impl{} {} {}", ts(ig), ts(self_ty), ts(wc)),
        };
        out.push(OutItem::Impl { header, items });
    }

    #[allow(clippy::too_many_arguments)]
    fn add_fn(&mut self, name: String, module: &str, self_ty: Option<String>, mut item: ImplItemFn, is_pub: bool, trait_impl: Option<String>, rel: &str, line: usize) -> usize {
        let was_async = item.sig.asyncness.is_some();
        CfgVisit(self.cfg).visit_impl_item_fn_mut(&mut item);
        Strip.visit_impl_item_fn_mut(&mut item);
        if let Some(t) = &trait_impl {
            if t != "Debug" && t != "Display" {
                item.vis = Visibility::Inherited;
            }
        }
        self.w.fns.push(FnInfo {
            path: name,
            module: module.to_string(),
            self_ty,
            item,
            is_pub,
            trait_impl,
            file: rel.to_string(),
            line,
            hoisted: vec![],
            notes: vec![],
            opaque: false,
            was_async,
        });
        self.w.fns.len() - 1
    }
}

impl World {
    fn modules_note(&mut self, _path: &str, _t: &ItemTrait) {}
}

fn clone_impl(name: &str) -> String {
    format!(
        "impl Clone for {name} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}"
    )
}

fn try_from_impl(e: &ItemEnum) -> String {
    let name = &e.ident;
    let mut arms = String::new();
    let mut ens = String::new();
    let mut next: i64 = 0;
    let mut neg = vec![];
    for v in &e.variants {
        let d = match &v.discriminant {
            Some((_, x)) => x.to_token_stream().to_string().replace("u8", "").replace('_', ""),
            None => next.to_string(),
        };
        let d: i64 = if let Some(h) = d.strip_prefix("0x") { i64::from_str_radix(h, 16).unwrap_or(-1) } else { d.parse().unwrap_or(-1) };
        next = d + 1;
        arms.push_str(&format!("  {d}u8 => Ok({name}::{}),\n", v.ident));
        ens.push_str(&format!("  value == {d}u8 ==> r == Ok::<{name}, VxErr>({name}::{}),\n", v.ident));
        neg.push(format!("value != {d}u8"));
    }
    format!(
        "impl {name} {{\n pub fn try_from(value: u8) -> (r: core::result::Result<{name}, VxErr>)\n ensures\n{ens}  ({}) ==> r is Err,\n {{ match value {{\n{arms}  _ => Err(VxErr),\n }} }}\n}}",
        neg.join(" && ")
    )
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let repo = PathBuf::from(&args[1]);
    let cfg = Cfg { feature: args[2].clone() };
    let contracted: HashSet<String> = std::fs::read_to_string(&args[3])
        .unwrap_or_default()
        .lines()
        .map(|s| s.trim().to_string())
        .filter(|s| !s.is_empty())
        .collect();
    let src = repo.join("radius/src");
    let mut b = Builder {
        cfg: &cfg,
        w: World { fns: vec![], modules: vec![], contracted, errors: vec![], ret_kind: Default::default(), field_ty: Default::default() },
        repo: repo.clone(),
        src: src.clone(),
        defines: Default::default(),
    };
    let lib = b.src.join("lib.rs");
    let dir = b.src.clone();
    b.module("", &lib, &dir);
    let _ = &b.defines;
    let mut w = b.w;

    // result kinds by (unique) function name
    let mut kinds: BTreeMap<String, HashSet<String>> = BTreeMap::new();
    for f in &w.fns {
        let k = match &f.item.sig.output {
            ReturnType::Type(_, t) => match &**t {
                Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                _ => "other".into(),
            },
            _ => "other".into(),
        };
        kinds.entry(f.item.sig.ident.to_string()).or_default().insert(k);
    }
    for (n, k) in kinds {
        if k.len() == 1 {
            w.ret_kind.insert(n, k.into_iter().next().unwrap());
        }
    }

    // 1. normalise every body
    for i in 0..w.fns.len() {
        let mut f = w.fns[i].clone();
        norm::normalize_fn(&w, &mut f);
        w.fns[i] = f;
    }
    // 2. inline helpers without contract
    let snapshot = w.fns.clone();
    for i in 0..w.fns.len() {
        if !w.contracted.contains(&w.fns[i].path) {
            continue;
        }
        let mut f = w.fns[i].clone();
        inline::inline_calls(&w, &snapshot, &mut f);
        w.fns[i] = f;
    }
    // 3. output
    let mut mods = vec![];
    for m in &w.modules {
        mods.push(json!({
            "path": m.path, "file": m.file,
            "items": m.items.iter().map(|i| out::item_json(&w, i)).collect::<Vec<_>>(),
        }));
    }
    println!("{}", json!({ "feature": cfg.feature, "modules": mods, "errors": w.errors }));
    let _: TokenStream = TokenStream::new();
}
