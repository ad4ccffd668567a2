//! vx: mechanical extraction of /repo/src into one Verus crate.
//!
//! The executable text is taken verbatim from the source files; the only edits
//! are the rules R1..R12 listed in DESIGN.md (visibility, loop desugaring to an
//! indexed range, reference patterns, by-value receivers, statics, macros,
//! cfg evaluation, dropped items) plus the insertion of ghost text
//! (requires/ensures, invariants, proof blocks) from the contract files.

mod overlay;
mod pointers;
mod rewrite;

use overlay::{FnOverlay, Overlays};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::spanned::Spanned;

pub struct Cfg {
    pub features: BTreeSet<String>,
}

impl Cfg {
    fn eval_meta(&self, m: &syn::Meta) -> bool {
        match m {
            syn::Meta::Path(p) => {
                if p.is_ident("test") || p.is_ident("kani") {
                    false
                } else if p.is_ident("debug_assertions") {
                    true
                } else {
                    false
                }
            }
            syn::Meta::NameValue(nv) => {
                let k = nv.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                let v = match &nv.value {
                    syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
                    _ => String::new(),
                };
                match k.as_str() {
                    "feature" => self.features.contains(&v),
                    "target_arch" => v == "x86_64",
                    "target_pointer_width" => v == "64",
                    _ => false,
                }
            }
            syn::Meta::List(l) => {
                let k = l.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                let metas: Vec<syn::Meta> = l
                    .parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
                    .map(|p| p.into_iter().collect())
                    .unwrap_or_default();
                match k.as_str() {
                    "all" => metas.iter().all(|m| self.eval_meta(m)),
                    "any" => metas.iter().any(|m| self.eval_meta(m)),
                    "not" => !metas.first().map(|m| self.eval_meta(m)).unwrap_or(false),
                    _ => false,
                }
            }
        }
    }
    /// true if every #[cfg(..)] attribute evaluates to true
    pub fn active(&self, attrs: &[syn::Attribute]) -> bool {
        attrs.iter().all(|a| {
            if a.path().is_ident("cfg") {
                match a.parse_args::<syn::Meta>() {
                    Ok(m) => self.eval_meta(&m),
                    Err(_) => true,
                }
            } else {
                true
            }
        })
    }
}

#[derive(Default)]
pub struct Report {
    pub functions: Vec<serde_json::Value>,
    pub dropped: Vec<String>,
    pub lost: Vec<String>,
    pub seen: BTreeSet<String>,
    pub locals: BTreeMap<String, Vec<String>>,
    pub renamed: Vec<String>,
    pub assumptions: Vec<String>,
}

pub struct Gen<'a> {
    pub out: String,
    pub ov: &'a Overlays,
    pub cfg: &'a Cfg,
    pub report: Report,
    pub external: BTreeSet<String>,
    pub nocontract: BTreeSet<String>,
    /// vacuity check: assert(false) at the start of every body under contract
    pub canary: bool,
    /// functions without a contract are trusted instead of verified
    pub auto_external: bool,
    pub baseline: BTreeMap<String, Vec<String>>,
    pub shapes: BTreeMap<String, Vec<String>>,
    /// functions verified with loop_isolation(false)
    pub noiso: BTreeSet<String>,
    pub macros: BTreeMap<String, MacroDef>,
    pub module: String,
}

#[derive(Clone)]
pub struct MacroDef {
    pub params: Vec<String>,
    /// parameters of kind `expr`
    pub exprs: Vec<bool>,
    pub body: String,
}

fn rng(s: proc_macro2::Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

fn ty_key(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => format!("&{}", ty_key(&r.elem)),
        _ => "?".into(),
    }
}

impl<'a> Gen<'a> {
    fn line(&self) -> usize {
        self.out.bytes().filter(|b| *b == b'\n').count() + 1
    }

    fn key(&self, k: &str) -> String {
        format!("{}::{}", self.module, k)
    }

    pub fn items(&mut self, src: &str, items: &[syn::Item]) {
        // collect macro definitions first
        for it in items {
            if let syn::Item::Macro(m) = it {
                if let Some(id) = &m.ident {
                    if let Some(d) = parse_macro_def(src, m) {
                        self.macros.insert(id.to_string(), d);
                    }
                }
            }
        }
        for it in items {
            self.item(src, it);
        }
    }

    fn drop_item(&mut self, what: String) {
        let m = self.module.clone();
        self.report.dropped.push(format!("{m}::{what}"));
    }

    fn attrs_of(&self, attrs: &[syn::Attribute]) -> String {
        let mut s = String::new();
        for a in attrs {
            if a.path().is_ident("repr") {
                let t: String = quote::quote!(#a).to_string();
                s.push_str(&t);
                s.push('\n');
            }
            if a.path().is_ident("derive") {
                let mut keep = vec![];
                if let Ok(p) = a.parse_args_with(syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated) {
                    for x in p {
                        if let Some(i) = x.get_ident() {
                            match i.to_string().as_str() {
                                "Copy" | "Clone" | "Eq" => keep.push(i.to_string()),
                                "PartialEq" => {
                                    keep.push("PartialEq".into());
                                    keep.push("Structural".into());
                                }
                                _ => {}
                            }
                        }
                    }
                }
                if !keep.is_empty() {
                    let _ = writeln!(s, "#[derive({})]", keep.join(", "));
                }
            }
        }
        s
    }

    fn item(&mut self, src: &str, it: &syn::Item) {
        use syn::Item::*;
        match it {
            Use(u) => {
                if self.cfg.active(&u.attrs) {
                    let (s, e) = rng(u.use_token.span());
                    let _ = (s, e);
                    let t = &src[rng(u.use_token.span()).0..rng(u.span()).1];
                    if matches!(u.vis, syn::Visibility::Inherited) {
                        if let Some(skip) = self.ov.skip_use.iter().find(|k| t.contains(k.as_str())) {
                            let w = format!("use {skip}");
                            self.drop_item(w);
                        } else {
                            let _ = writeln!(self.out, "#[allow(unused_imports)] {t}");
                        }
                    } else {
                        let _ = writeln!(self.out, "#[allow(unused_imports)] pub {t}");
                    }
                }
            }
            Const(c) => {
                if !self.cfg.active(&c.attrs) {
                    return;
                }
                let k = self.key(&c.ident.to_string());
                self.report.seen.insert(k.clone());
                let ty = &src[rng(c.ty.span()).0..rng(c.ty.span()).1];
                let ex = &src[rng(c.expr.span()).0..rng(c.expr.span()).1];
                if let Some(o) = self.ov.items.get(&k) {
                    // overlay: exec const with an ensures clause
                    let _ = writeln!(self.out, "pub exec const {}: {}\n{}\n{{ {} }}", c.ident, ty, o, ex);
                } else {
                    let _ = writeln!(self.out, "pub const {}: {} = {};", c.ident, ty, ex);
                }
            }
            Static(c) => {
                if !self.cfg.active(&c.attrs) {
                    return;
                }
                let ty = &src[rng(c.ty.span()).0..rng(c.ty.span()).1];
                let ex = &src[rng(c.expr.span()).0..rng(c.expr.span()).1];
                let k = self.key(&c.ident.to_string());
                self.report.seen.insert(k.clone());
                let _ = writeln!(self.out, "pub spec const {}_C: {} = {};", c.ident, ty, ex);
                let _ = writeln!(
                    self.out,
                    "pub exec static {0}: {1} ensures {0} == {0}_C {{ {2} }}",
                    c.ident, ty, ex
                );
            }
            Enum(e) => {
                if !self.cfg.active(&e.attrs) {
                    return;
                }
                let k = self.key(&e.ident.to_string());
                self.report.seen.insert(k.clone());
                let a = self.attrs_of(&e.attrs);
                self.out.push_str(&a);
                if let Some(x) = self.ov.item_attrs.get(&k) {
                    let _ = writeln!(self.out, "{x}");
                }
                let _ = writeln!(self.out, "#[allow(non_camel_case_types)] pub enum {} {{", e.ident);
                for v in &e.variants {
                    if !self.cfg.active(&v.attrs) {
                        continue;
                    }
                    let s = rng(v.ident.span()).0;
                    let (_, en) = rng(v.span());
                    let _ = writeln!(self.out, "    {},", &src[s..en]);
                }
                self.out.push_str("}\n");
            }
            Struct(st) => {
                if !self.cfg.active(&st.attrs) {
                    return;
                }
                let k = self.key(&st.ident.to_string());
                self.report.seen.insert(k.clone());
                if self.ov.skip.contains(&k) {
                    self.drop_item(st.ident.to_string());
                    return;
                }
                let a = self.attrs_of(&st.attrs);
                self.out.push_str(&a);
                if let Some(x) = self.ov.item_attrs.get(&k) {
                    let _ = writeln!(self.out, "{x}");
                }
                let gs = rng(st.generics.span());
                let g = if st.generics.params.is_empty() { "" } else { &src[gs.0..gs.1] };
                match &st.fields {
                    syn::Fields::Named(n) => {
                        let _ = writeln!(self.out, "pub struct {}{} {{", st.ident, g);
                        for f in &n.named {
                            let id = f.ident.as_ref().unwrap();
                            let t = &src[rng(f.ty.span()).0..rng(f.ty.span()).1];
                            let _ = writeln!(self.out, "    pub {}: {},", id, t);
                        }
                        self.out.push_str("}\n");
                    }
                    syn::Fields::Unnamed(n) => {
                        let v: Vec<String> = n
                            .unnamed
                            .iter()
                            .map(|f| format!("pub {}", &src[rng(f.ty.span()).0..rng(f.ty.span()).1]))
                            .collect();
                        let _ = writeln!(self.out, "pub struct {}{}({});", st.ident, g, v.join(", "));
                    }
                    syn::Fields::Unit => {
                        let _ = writeln!(self.out, "pub struct {}{};", st.ident, g);
                    }
                }
            }
            Fn(f) => {
                if !self.cfg.active(&f.attrs) {
                    return;
                }
                let name = f.sig.ident.to_string();
                let k = self.key(&name);
                self.function(src, &k, &f.attrs, &f.sig, Some(&f.block), true);
            }
            Impl(im) => {
                if !self.cfg.active(&im.attrs) {
                    return;
                }
                self.impl_item(src, im);
            }
            Trait(t) => {
                if !self.cfg.active(&t.attrs) {
                    return;
                }
                let name = t.ident.to_string();
                let k = self.key(&name);
                self.report.seen.insert(k.clone());
                let gs = rng(t.generics.span());
                let g = if t.generics.params.is_empty() { "" } else { &src[gs.0..gs.1] };
                let _ = writeln!(self.out, "pub trait {}{} {{", name, g);
                if let Some(x) = self.ov.extra.get(&k) {
                    self.out.push_str(x);
                }
                for ti in &t.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        let fk = self.key(&format!("{}::{}", name, f.sig.ident));
                        self.function(src, &fk, &f.attrs, &f.sig, f.default.as_ref(), false);
                    } else {
                        self.drop_item(format!("{name}::<non-fn item>"));
                    }
                }
                self.out.push_str("}\n");
            }
            Macro(m) => {
                if m.ident.is_some() {
                    return; // definition
                }
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if let Some(d) = self.macros.get(&name).cloned() {
                    let text = expand_macro(src, &d, &m.mac);
                    match syn::parse_file(&text) {
                        Ok(f) => {
                            self.items(&text, &f.items);
                        }
                        Err(_) => self.drop_item(format!("macro {name}!")),
                    }
                } else {
                    self.drop_item(format!("macro {name}!"));
                }
            }
            Mod(m) => {
                let n = m.ident.to_string();
                if self.cfg.active(&m.attrs) && m.content.is_some() {
                    self.drop_item(format!("mod {n}"));
                }
            }
            ExternCrate(_) => {}
            Type(t) => {
                let s = &src[rng(t.type_token.span()).0..rng(t.span()).1];
                let _ = writeln!(self.out, "pub {s}");
            }
            _ => self.drop_item("<other item>".into()),
        }
    }

    fn impl_item(&mut self, src: &str, im: &syn::ItemImpl) {
        let ty = ty_key(&im.self_ty);
        let head = match &im.trait_ {
            Some((_, p, _)) => format!("{} for {}", p.segments.last().unwrap().ident, ty),
            None => ty.clone(),
        };
        let hk = self.key(&head);
        if self.ov.skip.contains(&hk) {
            self.drop_item(format!("impl {head}"));
            return;
        }
        // an impl whose header repeats with different generics is told apart by its header text
        let hs = rng(im.impl_token.span()).0;
        let he = rng(im.brace_token.span.open()).0;
        let mut header = src[hs..he].trim().to_string();
        if let Some(sk) = self.ov.skip_header.iter().find(|x| header.replace(char::is_whitespace, "") == x.replace(char::is_whitespace, "")) {
            let w = format!("impl header {sk}");
            self.drop_item(w);
            return;
        }
        if let Some(r) = self.ov.items.get(&hk) {
            // replaced header is not allowed; only appended where-clause style text
            header = format!("{header} {r}");
        }
        if let Some(x) = self.ov.extra_before.get(&hk) {
            self.out.push_str(x);
        }
        let _ = writeln!(self.out, "{header} {{");
        if let Some(x) = self.ov.extra.get(&hk) {
            if !self.report.seen.contains(&format!("extra {hk}")) {
                self.out.push_str(x);
                self.report.seen.insert(format!("extra {hk}"));
            }
        }
        for ii in &im.items {
            match ii {
                syn::ImplItem::Fn(f) => {
                    if !self.cfg.active(&f.attrs) {
                        continue;
                    }
                    let k = match &im.trait_ {
                        Some((_, p, _)) => format!(
                            "{}::{}@{}",
                            ty,
                            f.sig.ident,
                            p.segments.last().unwrap().ident
                        ),
                        None => format!("{}::{}", ty, f.sig.ident),
                    };
                    let k = self.key(&k);
                    let public = im.trait_.is_none();
                    self.function(src, &k, &f.attrs, &f.sig, Some(&f.block), public);
                }
                syn::ImplItem::Const(c) => {
                    let ty = &src[rng(c.ty.span()).0..rng(c.ty.span()).1];
                    let ex = &src[rng(c.expr.span()).0..rng(c.expr.span()).1];
                    let _ = writeln!(self.out, "pub const {}: {} = {};", c.ident, ty, ex);
                }
                _ => self.drop_item(format!("{head}::<non-fn item>")),
            }
        }
        self.out.push_str("}\n");
    }

    fn function(
        &mut self,
        src: &str,
        key: &str,
        attrs: &[syn::Attribute],
        sig: &syn::Signature,
        block: Option<&syn::Block>,
        public: bool,
    ) {
        let key = key.to_string();
        if self.ov.skip.contains(&key) {
            let k = key.clone();
            self.report.dropped.push(format!("fn {k}"));
            return;
        }
        self.report.seen.insert(key.clone());
        let empty = FnOverlay::default();
        let dropped = self.nocontract.contains(&key);
        let has = self.ov.fns.contains_key(&key) && !dropped;
        let keep = FnOverlay { byref_self: self.ov.fns.get(&key).map(|o| o.byref_self).unwrap_or(false), ..FnOverlay::default() };
        let ov = if dropped { &keep } else { self.ov.fns.get(&key).unwrap_or(&empty) };
        let start_line = self.line();
        let mut head = String::new();
        for a in &ov.attrs {
            let _ = writeln!(head, "{a}");
        }
        for a in attrs {
            if a.path().is_ident("target_feature") {
                let (x, y) = rng(a.span());
                let _ = writeln!(head, "{}", &src[x..y]);
            }
        }
        if self.noiso.contains(&key) {
            head.push_str("#[verifier::loop_isolation(false)]\n");
        }
        let degraded = self.external.contains(&key) || dropped || (self.auto_external && !has);
        if degraded && block.is_some() && !ov.attrs.iter().any(|a| a.contains("external_body")) {
            head.push_str("#[verifier::external_body]\n");
        }
        if public {
            head.push_str("pub ");
        }
        // signature text
        let ss = rng(sig.fn_token.span()).0.min(
            sig.unsafety.map(|u| rng(u.span()).0).unwrap_or(usize::MAX),
        );
        let (ret_s, ret_e) = match &sig.output {
            syn::ReturnType::Default => {
                let e = rng(sig.paren_token.span.close()).1;
                (e, e)
            }
            syn::ReturnType::Type(_, t) => {
                let (a, b) = rng(t.span());
                (a, b)
            }
        };
        let mut sigtext = String::new();
        // parameters (receiver rewrite, patterns `mut x` are fine)
        let mut pre = src[ss..ret_s].to_string();
        if ov.byref_self {
            if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first() {
                if r.reference.is_none() {
                    let (a, b) = rng(r.span());
                    pre = format!("{}&mut self{}", &src[ss..a], &src[b..ret_s]);
                }
            }
        }
        // `mut self` by value is not accepted: R4 demands byref_self
        sigtext.push_str(&pre);
        if ret_s != ret_e {
            let t = &src[ret_s..ret_e];
            let _ = write!(sigtext, "({}: {})", ov.ret.as_deref().unwrap_or("res"), t);
        }
        let wc = sig.generics.where_clause.as_ref().map(|w| {
            let (a, b) = rng(w.span());
            src[a..b].to_string()
        });
        if let Some(w) = wc {
            let _ = write!(sigtext, " {w}");
        }
        // R11: raw pointer parameters are cursors
        let mut ptrs: Vec<String> = vec![];
        for a in &sig.inputs {
            if let syn::FnArg::Typed(t) = a {
                if let (syn::Pat::Ident(i), syn::Type::Ptr(p)) = (&*t.pat, &*t.ty) {
                    if p.mutability.is_none() {
                        let (x, y) = rng(p.span());
                        let (ex, ey) = rng(p.elem.span());
                        sigtext = sigtext.replacen(&src[x..y], &format!("crate::base::VxPtr<'_, {}>", &src[ex..ey]), 1);
                        ptrs.push(i.ident.to_string());
                    }
                }
            }
        }
        let params: Vec<String> = sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                syn::FnArg::Typed(t) => match &*t.pat {
                    syn::Pat::Ident(i) => Some(i.ident.to_string()),
                    _ => Some("_".into()),
                },
                _ => None,
            })
            .collect();
        let body = match block {
            Some(b) if !(degraded || ov.attrs.iter().any(|a| a.contains("external_body"))) => {
                let base = self.baseline.get(&key).cloned();
                let mut cov = ov.clone();
                if self.canary && has {
                    cov.start = format!("proof {{ assert(false); }}\n{}", cov.start);
                }
                let ov = &cov;
                let result = matches!(&sig.output, syn::ReturnType::Type(_, t) if ty_key(t).ends_with("Result"));
                Some(rewrite::function_body(src, b, ov, self.cfg, &self.macros, &params, base, self.shapes.get(&key).cloned(), result, &ptrs))
            }
            _ => None,
        };
        let nested: Vec<&syn::ItemFn> = match (&body, block) {
            (Some(_), Some(b)) => b
                .stmts
                .iter()
                .filter_map(|s| match s {
                    syn::Stmt::Item(syn::Item::Fn(f)) if self.cfg.active(&f.attrs) => Some(f),
                    _ => None,
                })
                .collect(),
            _ => vec![],
        };
        let mut text = head;
        if let Some(b) = &body {
            // R8 for parameters
            for p in &params {
                if let Some(n) = b.rename.get(p) {
                    sigtext = rename_param(&sigtext, p, n);
                }
            }
        }
        text.push_str(&sigtext);
        text.push('\n');
        text.push_str(&ov.spec);
        text.push('\n');
        let mut shape = vec![];
        match block {
            None => text.push_str(";\n"),
            Some(b) => {
                if degraded || ov.attrs.iter().any(|a| a.contains("external_body")) {
                    text.push_str("{ unimplemented!() }\n");
                } else {
                    let _ = b;
                    let r = body.unwrap();
                    shape = r.shape;
                    for l in r.lost {
                        self.report.lost.push(format!("{key}: {l}"));
                    }
                    if let Some(n) = r.renamed {
                        self.report.renamed.push(format!("{key}: {n}"));
                    }
                    self.report.locals.insert(key.clone(), r.locals);
                    if nested.is_empty() {
                        text.push_str(&r.text);
                    } else {
                        text.push_str("{\n");
                        self.out.push_str(&text);
                        text.clear();
                        for f in nested {
                            let k = format!("{key}::{}", f.sig.ident);
                            self.function(src, &k, &f.attrs, &f.sig, Some(&f.block), false);
                        }
                        text.push_str(&r.text.trim_start()[1..]);
                    }
                    text.push('\n');
                }
            }
        }
        self.out.push_str(&text);
        let end_line = self.line();
        let trusted = ov.attrs.iter().any(|a| a.contains("external_body"));
        self.report.functions.push(serde_json::json!({
            "key": key, "start": start_line, "end": end_line,
            "contract": has, "degraded": degraded, "trusted": trusted,
            "has_body": block.is_some(), "shape": shape,
            "props": ov.props, "nocontract": dropped,
            "calls": block.map(calls_of).unwrap_or_default(),
        }));
    }
}

/// names in call position: functions, methods and macros
fn calls_of(b: &syn::Block) -> Vec<String> {
    use syn::visit::Visit;
    struct C(BTreeSet<String>);
    impl<'ast> Visit<'ast> for C {
        fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
            if let syn::Expr::Path(p) = &*c.func {
                self.0.insert(p.path.segments.last().unwrap().ident.to_string());
            }
            syn::visit::visit_expr_call(self, c);
        }
        fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
            self.0.insert(m.method.to_string());
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            fn walk(ts: proc_macro2::TokenStream, o: &mut BTreeSet<String>) {
                for t in ts {
                    match t {
                        proc_macro2::TokenTree::Ident(i) => {
                            o.insert(i.to_string());
                        }
                        proc_macro2::TokenTree::Group(g) => walk(g.stream(), o),
                        _ => {}
                    }
                }
            }
            self.0.insert(m.path.segments.last().unwrap().ident.to_string());
            walk(m.tokens.clone(), &mut self.0);
        }
    }
    let mut c = C(BTreeSet::new());
    c.visit_block(b);
    c.0.into_iter().collect()
}

/// replace the parameter name `p` (followed by `:`) in a signature
fn rename_param(sig: &str, p: &str, n: &str) -> String {
    let b: Vec<char> = sig.chars().collect();
    let w: Vec<char> = p.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let idc = |c: char| c.is_alphanumeric() || c == '_';
    while i < b.len() {
        if b[i..].starts_with(&w)
            && (i == 0 || !idc(b[i - 1]))
            && b.get(i + w.len()).map(|c| !idc(*c)).unwrap_or(true)
        {
            let mut j = i + w.len();
            while j < b.len() && b[j].is_whitespace() {
                j += 1;
            }
            if j < b.len() && b[j] == ':' && b.get(j + 1) != Some(&':') {
                out.push_str(n);
                i += w.len();
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

fn parse_macro_def(src: &str, m: &syn::ItemMacro) -> Option<MacroDef> {
    // macro_rules! n { ( $a:expr, $b:ident ... ) => { body } ; }
    let toks: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
    let (mut pat, mut body) = (None, None);
    let mut n = 0;
    for t in &toks {
        if let proc_macro2::TokenTree::Group(g) = t {
            if n == 0 {
                pat = Some(g.clone());
            } else if n == 1 {
                body = Some(g.clone());
            }
            n += 1;
        }
    }
    if n != 2 {
        return None;
    }
    let mut params = vec![];
    let mut exprs = vec![];
    let pt: Vec<proc_macro2::TokenTree> = pat?.stream().into_iter().collect();
    let mut i = 0;
    while i < pt.len() {
        if let proc_macro2::TokenTree::Punct(p) = &pt[i] {
            if p.as_char() == '$' {
                if let Some(proc_macro2::TokenTree::Ident(id)) = pt.get(i + 1) {
                    params.push(id.to_string());
                    exprs.push(matches!(pt.get(i + 3), Some(proc_macro2::TokenTree::Ident(k)) if k == "expr"));
                    i += 4;
                    continue;
                }
                return None; // repetition
            }
        }
        i += 1;
    }
    let g = body?;
    let (s, e) = (rng(g.span_open()).1, rng(g.span_close()).0);
    Some(MacroDef { params, exprs, body: src[s..e].to_string() })
}

pub fn expand_macro(src: &str, d: &MacroDef, mac: &syn::Macro) -> String {
    let mut args: Vec<(usize, usize)> = vec![];
    let mut cur: Option<(usize, usize)> = None;
    for t in mac.tokens.clone() {
        let is_comma = matches!(&t, proc_macro2::TokenTree::Punct(p) if p.as_char() == ',');
        if is_comma {
            if let Some(c) = cur.take() {
                args.push(c);
            }
            continue;
        }
        let (s, e) = rng(t.span());
        cur = Some(match cur {
            None => (s, e),
            Some((a, _)) => (a, e),
        });
    }
    if let Some(c) = cur {
        args.push(c);
    }
    // replace $name in the body text, longest names first
    let mut order: Vec<usize> = (0..d.params.len()).collect();
    order.sort_by_key(|i| std::cmp::Reverse(d.params[*i].len()));
    let mut out = String::new();
    let b = d.body.as_bytes();
    let mut i = 0;
    'outer: while i < b.len() {
        if b[i] == b'$' {
            for &k in &order {
                let p = d.params[k].as_bytes();
                if b[i + 1..].starts_with(p) {
                    if let Some(&(s, e)) = args.get(k) {
                        let a = &src[s..e];
                        // an expression argument stays one operand
                        if d.exprs[k] && !a.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') {
                            let _ = write!(out, "({a})");
                        } else {
                            out.push_str(a);
                        }
                        i += 1 + p.len();
                        continue 'outer;
                    }
                }
            }
        }
        // copy one utf-8 char
        let ch = d.body[i..].chars().next().unwrap();
        out.push(ch);
        i += ch.len_utf8();
    }
    out
}

fn main() {
    let mut src_dir = String::new();
    let mut contracts = String::new();
    let mut out = String::new();
    let mut map = String::new();
    let mut external = BTreeSet::new();
    let mut nocontract = BTreeSet::new();
    let mut auto_external = false;
    let mut canary = false;
    let mut baseline_file: Option<String> = None;
    let mut shapes_file: Option<String> = None;
    let mut noiso: BTreeSet<String> = BTreeSet::new();
    let mut features: BTreeSet<String> = ["std".to_string(), "simd".to_string()].into();
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--src" => src_dir = args.next().unwrap(),
            "--contracts" => contracts = args.next().unwrap(),
            "--out" => out = args.next().unwrap(),
            "--map" => map = args.next().unwrap(),
            "--baseline" => baseline_file = args.next(),
            "--shapes" => shapes_file = args.next(),
            "--noiso" => noiso = args.next().unwrap().split(',').filter(|s| !s.is_empty()).map(String::from).collect(),
            "--external" => {
                for k in args.next().unwrap().split(',') {
                    if !k.is_empty() {
                        external.insert(k.to_string());
                    }
                }
            }
            "--canary" => canary = true,
            "--auto-external" => auto_external = true,
            "--nocontract" => {
                for k in args.next().unwrap().split(',') {
                    if !k.is_empty() {
                        nocontract.insert(k.to_string());
                    }
                }
            }
            "--features" => {
                features = args.next().unwrap().split(',').filter(|s| !s.is_empty()).map(String::from).collect();
            }
            _ => panic!("unknown argument {a}"),
        }
    }
    let ov = overlay::load(&contracts, &features);
    let cfg = Cfg { features };
    let baseline: BTreeMap<String, Vec<String>> = baseline_file
        .and_then(|f| std::fs::read_to_string(f).ok())
        .and_then(|t| serde_json::from_str(&t).ok())
        .unwrap_or_default();
    let shapes: BTreeMap<String, Vec<String>> = shapes_file
        .and_then(|f| std::fs::read_to_string(f).ok())
        .and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok())
        .and_then(|v| serde_json::from_value(v["shapes"].clone()).ok())
        .unwrap_or_default();
    let mut g = Gen {
        out: String::new(),
        ov: &ov,
        cfg: &cfg,
        report: Report::default(),
        external,
        nocontract,
        auto_external,
        canary,
        baseline,
        shapes,
        noiso,
        macros: BTreeMap::new(),
        module: String::new(),
    };
    g.out.push_str(&ov.prelude);
    g.out.push('\n');
    let mut spec_mods: Vec<(String, usize, usize)> = vec![];
    for (name, text) in &ov.spec_modules {
        let s = g.line();
        let _ = write!(g.out, "pub mod {name} {{ #[allow(unused_imports)] use vstd::prelude::*; verus! {{\n{text}\n}} }}\n");
        spec_mods.push((name.clone(), s, g.line()));
    }
    let mut open: Vec<String> = vec![];
    for (i, (module, rel)) in ov.modules.iter().enumerate() {
        let path = format!("{src_dir}/{rel}");
        let text = match std::fs::read_to_string(&path) {
            Ok(t) => t,
            Err(e) => {
                g.report.lost.push(format!("file {rel}: {e}"));
                String::new()
            }
        };
        let file = match syn::parse_file(&text) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("vx: cannot parse {path}: {e}");
                std::process::exit(3);
            }
        };
        g.module = module.clone();
        g.macros.clear();
        let s = g.line();
        let last = module.rsplit("::").next().unwrap();
        let _ = write!(g.out, "pub mod {last} {{\n#[allow(unused_imports)] use vstd::prelude::*;\nverus! {{\n");
        for u in &ov.module_uses {
            let _ = writeln!(g.out, "#[allow(unused_imports)] {u}");
        }
        if let Some(x) = ov.extra.get(&format!("mod {module}")) {
            g.out.push_str(x);
        }
        g.items(&text, &file.items);
        g.out.push_str("}\n");
        open.push(module.clone());
        // submodules stay inside their parent
        let next = ov.modules.get(i + 1).map(|x| x.0.clone()).unwrap_or_default();
        while let Some(m) = open.last() {
            if next.starts_with(&format!("{m}::")) {
                break;
            }
            g.out.push_str("}\n");
            open.pop();
        }
        spec_mods.push((module.clone(), s, g.line()));
    }
    g.out.push_str("fn main() {}\n");
    // contracts that found no function to attach to
    for k in ov.fns.keys() {
        if !g.report.seen.contains(k) {
            g.report.lost.push(format!("{k}: function not found in the source"));
        }
    }
    std::fs::write(&out, &g.out).unwrap();
    let r = &g.report;
    let j = serde_json::json!({
        "functions": r.functions, "dropped": r.dropped, "lost": r.lost, "locals": r.locals,
        "renamed": r.renamed,
        "modules": spec_mods.iter().map(|(n,s,e)| serde_json::json!({"name": n, "start": s, "end": e})).collect::<Vec<_>>(),
    });
    std::fs::write(&map, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
