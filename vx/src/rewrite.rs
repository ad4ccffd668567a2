//! Function-body rewriting. Every rule is local, syntactic and meaning preserving:
//!  R1  `for P in E`      -> counted loop over an index; `let P = ...;` at the start of the body
//!  R2  `X.iter().fold`   -> counted loop with an accumulator
//!  R9  `X.iter().collect()` -> a verified helper that pushes every reference
//!  R3  `let &P = E;`     -> `let P = *(E);`
//!  R4  byte strings      -> array literals
//!  R5  `.to_be_bytes()`  -> `.vx_to_be_bytes()` (trusted contract)
//!  R6  `const` in a body -> `let`
//!  R7  statements under a false #[cfg] are dropped, local macros are expanded
//!  R13 `if C { A; continue; } REST` at the top of a loop body: `if C { A; } else { REST }`
//!  R8  locals are renamed back to the names the contracts use (positional)
//! Ghost text from the contracts is inserted at loop heads and statement boundaries.
use crate::overlay::FnOverlay;
use crate::{expand_macro, Cfg, MacroDef};
use std::collections::BTreeMap;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub struct Out {
    pub text: String,
    pub lost: Vec<String>,
    pub renamed: Option<String>,
    pub locals: Vec<String>,
    pub shape: Vec<String>,
    pub rename: BTreeMap<String, String>,
}

fn rng(s: proc_macro2::Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

fn strip(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub struct Edits {
    v: Vec<(usize, usize, String, usize)>,
}
impl Edits {
    pub fn new() -> Self {
        Edits { v: vec![] }
    }
    pub fn rep(&mut self, a: usize, b: usize, t: String) {
        let n = self.v.len();
        self.v.push((a, b, t, n));
    }
    pub fn ins(&mut self, a: usize, t: String) {
        self.rep(a, a, t);
    }
    pub fn apply(mut self, src: &str, a: usize, b: usize) -> String {
        // insertions keep their order; replacements never overlap by construction
        self.v.sort_by(|x, y| (x.0, x.1 != x.0, x.3).cmp(&(y.0, y.1 != y.0, y.3)));
        let mut out = String::new();
        let mut p = a;
        for (s, e, t, _) in self.v {
            if s < p {
                continue; // nested inside an already replaced range
            }
            out.push_str(&src[p..s]);
            out.push_str(&t);
            p = e;
        }
        out.push_str(&src[p..b]);
        out
    }
}

// ---------------------------------------------------------------- macro expansion / cfg
fn expand_all(mut text: String, macros: &BTreeMap<String, MacroDef>) -> String {
    struct F<'a> {
        macros: &'a BTreeMap<String, MacroDef>,
        hit: Option<(usize, usize, syn::Macro)>,
    }
    impl<'a, 'ast> Visit<'ast> for F<'a> {
        fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if self.hit.is_none() && self.macros.contains_key(&name) {
                let (a, b) = rng(m.span());
                self.hit = Some((a, b, m.mac.clone()));
            }
        }
        fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if self.hit.is_none() && self.macros.contains_key(&name) {
                let (a, b) = rng(m.span());
                self.hit = Some((a, b, m.mac.clone()));
            }
        }
    }
    for _ in 0..200 {
        let Ok(b) = syn::parse_str::<syn::Block>(&text) else { return text };
        let mut f = F { macros, hit: None };
        f.visit_block(&b);
        let Some((s, e, mac)) = f.hit else { return text };
        let name = mac.path.segments.last().unwrap().ident.to_string();
        let d = &macros[&name];
        let body = expand_macro(&text, d, &mac);
        text = format!("{}{{ {} }}{}", &text[..s], body, &text[e..]);
    }
    text
}

fn drop_cfg(text: String, cfg: &Cfg) -> String {
    struct F<'a> {
        cfg: &'a Cfg,
        e: Edits,
    }
    impl<'a, 'ast> Visit<'ast> for F<'a> {
        fn visit_block(&mut self, b: &'ast syn::Block) {
            for s in &b.stmts {
                let attrs: &[syn::Attribute] = match s {
                    syn::Stmt::Local(l) => &l.attrs,
                    syn::Stmt::Expr(e, _) => expr_attrs(e),
                    syn::Stmt::Macro(m) => &m.attrs,
                    syn::Stmt::Item(_) => &[],
                };
                if !self.cfg.active(attrs) {
                    let (a, b) = rng(s.span());
                    self.e.rep(a, b, String::new());
                } else {
                    for at in attrs {
                        let (a, b) = rng(at.span());
                        self.e.rep(a, b, String::new());
                    }
                    visit::visit_stmt(self, s);
                }
            }
        }
        fn visit_arm(&mut self, a: &'ast syn::Arm) {
            if !self.cfg.active(&a.attrs) {
                let (s, e) = rng(a.span());
                self.e.rep(s, e, String::new());
            } else {
                visit::visit_arm(self, a);
            }
        }
    }
    let Ok(b) = syn::parse_str::<syn::Block>(&text) else { return text };
    let mut f = F { cfg, e: Edits::new() };
    f.visit_block(&b);
    let n = text.len();
    f.e.apply(&text, 0, n)
}

/// R10: functions declared in the body are emitted on their own
fn drop_fns(text: String) -> String {
    let Ok(b) = syn::parse_str::<syn::Block>(&text) else { return text };
    let mut e = Edits::new();
    for s in &b.stmts {
        if let syn::Stmt::Item(syn::Item::Fn(_)) = s {
            let (x, y) = rng(s.span());
            e.rep(x, y, String::new());
        }
    }
    let n = text.len();
    e.apply(&text, 0, n)
}

fn expr_attrs(e: &syn::Expr) -> &[syn::Attribute] {
    use syn::Expr::*;
    match e {
        Block(x) => &x.attrs,
        If(x) => &x.attrs,
        Match(x) => &x.attrs,
        ForLoop(x) => &x.attrs,
        While(x) => &x.attrs,
        Loop(x) => &x.attrs,
        Call(x) => &x.attrs,
        MethodCall(x) => &x.attrs,
        Return(x) => &x.attrs,
        Assign(x) => &x.attrs,
        Unsafe(x) => &x.attrs,
        Macro(x) => &x.attrs,
        _ => &[],
    }
}

// ---------------------------------------------------------------- continue
/// `if C { A; continue; } REST` at the top of a loop body becomes `if C { A; } else { REST }`
fn drop_continue(mut text: String) -> String {
    struct F {
        hit: Option<(usize, usize, usize, usize)>, // continue statement, end of the `if`, end of the body
    }
    impl F {
        fn body(&mut self, b: &syn::Block) {
            for (i, st) in b.stmts.iter().enumerate() {
                let syn::Stmt::Expr(syn::Expr::If(f), _) = st else { continue };
                if f.else_branch.is_some() || i + 1 == b.stmts.len() {
                    continue;
                }
                if let Some(last @ syn::Stmt::Expr(syn::Expr::Continue(c), _)) = f.then_branch.stmts.last() {
                    if c.label.is_none() && self.hit.is_none() {
                        let (x, _) = rng(last.span());
                        let (_, tend) = rng(f.then_branch.span());
                        let (_, e) = rng(st.span());
                        let (_, z) = rng(b.span());
                        self.hit = Some((x, tend - 1, e, z - 1));
                    }
                }
            }
        }
    }
    impl<'ast> Visit<'ast> for F {
        fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
            self.body(&f.body);
            visit::visit_expr_for_loop(self, f);
        }
        fn visit_expr_while(&mut self, f: &'ast syn::ExprWhile) {
            self.body(&f.body);
            visit::visit_expr_while(self, f);
        }
    }
    loop {
        let Ok(b) = syn::parse_str::<syn::Block>(&text) else { return text };
        let mut f = F { hit: None };
        f.visit_block(&b);
        let Some((c, t, e, z)) = f.hit else { return text };
        text = format!("{}{} else {{{} }} {}", &text[..c], &text[t..e], &text[e..z], &text[z..]);
    }
}

// ---------------------------------------------------------------- locals
struct Locals {
    names: Vec<String>,
}
impl<'ast> Visit<'ast> for Locals {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        let n = p.ident.to_string();
        // upper-case identifiers in patterns are constants or variants
        if n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
            self.names.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_item_const(&mut self, c: &'ast syn::ItemConst) {
        self.names.push(c.ident.to_string());
    }
}

fn rename_text(text: String, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() {
        return text;
    }
    struct R<'a> {
        map: &'a BTreeMap<String, String>,
        e: Edits,
    }
    impl<'a> R<'a> {
        fn id(&mut self, i: &syn::Ident) {
            if let Some(n) = self.map.get(&i.to_string()) {
                let (a, b) = rng(i.span());
                self.e.rep(a, b, n.clone());
            }
        }
    }
    impl<'a, 'ast> Visit<'ast> for R<'a> {
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            self.id(&p.ident);
            visit::visit_pat_ident(self, p);
        }
        fn visit_item_const(&mut self, c: &'ast syn::ItemConst) {
            self.id(&c.ident);
            visit::visit_item_const(self, c);
        }
        fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
            if p.path.segments.len() == 1 && p.qself.is_none() {
                self.id(&p.path.segments[0].ident.clone());
            }
        }
        fn visit_field_value(&mut self, f: &'ast syn::FieldValue) {
            if f.colon_token.is_none() {
                if let syn::Member::Named(i) = &f.member {
                    if let Some(n) = self.map.get(&i.to_string()) {
                        let (a, b) = rng(i.span());
                        self.e.rep(a, b, format!("{i}: {n}"));
                    }
                }
            } else {
                self.visit_expr(&f.expr);
            }
        }
        fn visit_field_pat(&mut self, f: &'ast syn::FieldPat) {
            if f.colon_token.is_none() {
                if let syn::Member::Named(i) = &f.member {
                    if let Some(n) = self.map.get(&i.to_string()) {
                        let (a, b) = rng(i.span());
                        self.e.rep(a, b, format!("{i}: {n}"));
                    }
                }
            } else {
                self.visit_pat(&f.pat);
            }
        }
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            fn walk(ts: proc_macro2::TokenStream, map: &BTreeMap<String, String>, e: &mut Edits) {
                let v: Vec<_> = ts.into_iter().collect();
                for (k, t) in v.iter().enumerate() {
                    match t {
                        proc_macro2::TokenTree::Ident(i) => {
                            let after_dot = k > 0
                                && matches!(&v[k - 1], proc_macro2::TokenTree::Punct(p) if p.as_char() == '.')
                                && !(k > 1 && matches!(&v[k - 2], proc_macro2::TokenTree::Punct(p) if p.as_char() == '.'));
                            if after_dot {
                                continue;
                            }
                            if let Some(n) = map.get(&i.to_string()) {
                                let (a, b) = rng(i.span());
                                e.rep(a, b, n.clone());
                            }
                        }
                        proc_macro2::TokenTree::Group(g) => walk(g.stream(), map, e),
                        _ => {}
                    }
                }
            }
            walk(m.tokens.clone(), self.map, &mut self.e);
        }
    }
    let Ok(b) = syn::parse_str::<syn::Block>(&text) else { return text };
    let mut r = R { map, e: Edits::new() };
    r.visit_block(&b);
    let n = text.len();
    r.e.apply(&text, 0, n)
}

// ---------------------------------------------------------------- main rewriting
struct Rw<'a> {
    src: &'a str,
    ov: &'a FnOverlay,
    loops: usize,
    stmt_hits: BTreeMap<usize, usize>, // overlay stmt index -> matches seen
    stmt_done: BTreeMap<usize, bool>,
    used_loops: Vec<usize>,
    lost: Vec<String>,
    shape: Vec<String>,
    bare: bool,
    /// source loop -> contract loop
    alias: Vec<usize>,
    /// the proof at the end of the function also belongs to its `return` statements
    rets: bool,
}

enum Src {
    Range,
    Place { shared: bool, text: String, mutable: bool, limit: Option<String> },
    Chunks { text: String, n: String, exact: bool },
    ZipTakeWhile { a: String, cond: String, closure: String, b: String, b_mut: bool },
    Zip { a: String, b: String, a_mut: bool, b_mut: bool },
    Rev { text: String },
    /// `X.iter().rev()`
    Back { text: String },
}

impl<'a> Rw<'a> {
    fn t(&self, s: proc_macro2::Span) -> &'a str {
        let (a, b) = rng(s);
        &self.src[a..b]
    }

    /// render an expression with its own edits
    fn expr(&mut self, e: &syn::Expr) -> String {
        let (a, b) = rng(e.span());
        let mut v = V { rw: self, e: Edits::new() };
        v.visit_expr(e);
        let ed = v.e;
        ed.apply(self.src, a, b)
    }

    fn method<'e>(e: &'e syn::Expr, name: &str, nargs: usize) -> Option<&'e syn::ExprMethodCall> {
        if let syn::Expr::MethodCall(m) = e {
            if m.method == name && m.args.len() == nargs {
                return Some(m);
            }
        }
        None
    }

    /// (source kind, enumerate?)
    fn source(&mut self, e: &syn::Expr) -> (Src, bool) {
        let mut e = e;
        while let syn::Expr::Paren(p) = e {
            e = &p.expr;
        }
        if let syn::Expr::Range(_) = e {
            return (Src::Range, false);
        }
        if let Some(m) = Self::method(e, "enumerate", 0) {
            let (s, en) = self.source(&m.receiver);
            if !en && !matches!(s, Src::Range) {
                return (s, true);
            }
        }
        if let Some(m) = Self::method(e, "rev", 0) {
            let mut r: &syn::Expr = &m.receiver;
            while let syn::Expr::Paren(p) = r {
                r = &p.expr;
            }
            if let syn::Expr::Range(_) = r {
                let text = self.t(r.span()).to_string();
                return (Src::Rev { text }, false);
            }
            if let Some(it) = Self::method(r, "iter", 0) {
                let text = self.expr(&it.receiver);
                return (Src::Back { text }, false);
            }
        }
        // `X.iter().take(n)`
        if let Some(m) = Self::method(e, "take", 1) {
            if Self::method(&m.receiver, "iter", 0).is_some() || Self::method(&m.receiver, "iter_mut", 0).is_some() {
                if let (Src::Place { shared, text, mutable, limit: None }, false) = self.source(&m.receiver) {
                    let l = self.expr(&m.args[0]);
                    return (Src::Place { shared, text, mutable, limit: Some(l) }, false);
                }
            }
        }
        if let Some(m) = Self::method(e, "iter", 0) {
            let t = self.expr(&m.receiver);
            return (Src::Place { shared: true, text: format!("&{t}"), mutable: false, limit: None }, false);
        }
        if let Some(m) = Self::method(e, "iter_mut", 0) {
            let t = self.expr(&m.receiver);
            return (Src::Place { shared: false, text: t, mutable: true, limit: None }, false);
        }
        for (nm, exact) in [("chunks", false), ("chunks_exact", true)] {
            if let Some(m) = Self::method(e, nm, 1) {
                let t = self.expr(&m.receiver);
                let n = self.expr(&m.args[0]);
                return (Src::Chunks { text: t, n, exact }, false);
            }
        }
        if let Some(m) = Self::method(e, "zip", 1) {
            let mut arg = &m.args[0];
            let mut b_mut = false;
            let mut amp = false;
            if let Some(x) = Self::method(arg, "iter_mut", 0) {
                b_mut = true;
                arg = &x.receiver;
            } else if let Some(x) = Self::method(arg, "iter", 0) {
                arg = &x.receiver;
            } else if let syn::Expr::Reference(r) = arg {
                b_mut = r.mutability.is_some();
                arg = &r.expr;
            } else {
                amp = true;
            }
            let _ = amp;
            let b = self.expr(arg);
            let r: &syn::Expr = &m.receiver;
            if let Some(tw) = Self::method(r, "take_while", 1) {
                if let (Some(it), syn::Expr::Closure(c)) = (Self::method(&tw.receiver, "iter", 0), &tw.args[0]) {
                    if c.inputs.len() == 1 {
                        let a = self.expr(&it.receiver);
                        let closure = self.t(c.inputs[0].span()).to_string();
                        let cond = self.t(c.body.span()).to_string();
                        return (Src::ZipTakeWhile { a, cond, closure, b, b_mut }, false);
                    }
                }
            }
            let mut a_mut = false;
            let mut ar = r;
            if let Some(x) = Self::method(r, "iter_mut", 0) {
                a_mut = true;
                ar = &x.receiver;
            } else if let Some(x) = Self::method(r, "iter", 0) {
                ar = &x.receiver;
            }
            let a = self.expr(ar);
            return (Src::Zip { a, b, a_mut, b_mut }, false);
        }
        if let syn::Expr::Reference(r) = e {
            let t = self.expr(&r.expr);
            return if r.mutability.is_some() {
                (Src::Place { shared: false, text: t, mutable: true, limit: None }, false)
            } else {
                (Src::Place { shared: true, text: format!("&{t}"), mutable: false, limit: None }, false)
            };
        }
        let t = self.expr(e);
        (Src::Place { shared: true, text: t, mutable: false, limit: None }, false)
    }

    /// `let P = <elem>;` where elem is a place; shared refs take `&`
    fn bind(&self, p: &syn::Pat, place: &str, mutable: bool) -> String {
        match p {
            syn::Pat::Wild(_) => String::new(),
            syn::Pat::Reference(r) => {
                let mut pt: &syn::Pat = &r.pat;
                while let syn::Pat::Paren(q) = pt {
                    pt = &q.pat;
                }
                format!("let {} = {};", self.t(pt.span()), place)
            }
            _ => {
                let t = self.t(p.span());
                if mutable {
                    format!("let {t} = &mut {place};")
                } else {
                    format!("let {t} = &{place};")
                }
            }
        }
    }
    fn bind_val(&self, p: &syn::Pat, val: &str) -> String {
        match p {
            syn::Pat::Wild(_) => String::new(),
            _ => format!("let {} = {val};", self.t(p.span())),
        }
    }

    fn next_loop(&mut self) -> usize {
        let i = self.loops;
        self.loops += 1;
        match self.alias.get(i) {
            Some(&usize::MAX) => 100 + i,
            Some(&j) => j,
            None => i,
        }
    }
    fn inv(&mut self, n: usize) -> String {
        self.used_loops.push(n);
        self.ov.loops.get(&n).cloned().unwrap_or_default()
    }
    fn hook(&self, n: usize, w: &str) -> String {
        self.ov.loop_hooks.get(&(n, w.to_string())).cloned().unwrap_or_default()
    }

    /// (header replacing `for P in E {`, tail inserted before `}` , suffix after `}`)
    fn for_loop(&mut self, f: &syn::ExprForLoop) -> (String, String, String) {
        let n = self.next_loop();
        let mut inv = self.inv(n);
        let start = self.hook(n, "start");
        let end = self.hook(n, "end");
        let before = self.hook(n, "before");
        let after = self.hook(n, "after");
        let (s, en) = self.source(&f.expr);
        let mut pat: &syn::Pat = &f.pat;
        while let syn::Pat::Paren(q) = pat {
            pat = &q.pat;
        }
        let k = format!("__k{n}");
        let mut idx_bind = String::new();
        if en {
            if let syn::Pat::Tuple(t) = pat {
                if t.elems.len() == 2 {
                    idx_bind = self.bind_val(&t.elems[0], &k);
                    // the invariants may call the index by its name in the source
                    if let syn::Pat::Ident(i) = &t.elems[0] {
                        inv = index_name(&inv, &i.ident.to_string(), &k);
                    }
                    pat = &t.elems[1];
                }
            }
        }
        let pat = pat.clone();
        self.shape.push(
            match &s {
                Src::Range => "for-range",
                Src::Rev { .. } => "for-rev",
                Src::Back { .. } => "for-back",
                Src::Place { .. } => "for-each",
                Src::Chunks { .. } => "for-chunks",
                Src::Zip { .. } => "for-zip",
                Src::ZipTakeWhile { .. } => "for-zip-take-while",
            }
            .to_string(),
        );
        match s {
            Src::Range => {
                let e = self.expr(&f.expr);
                let v = match &pat {
                    syn::Pat::Wild(_) => k.clone(),
                    p => self.t(p.span()).trim_start_matches("mut ").to_string(),
                };
                // ... and the contract may have been written for a loop over elements
                let has = |t: &str| word_replace(t, &k, "") != t;
                if v != k && (self.ov.loops.values().any(|t| has(t)) || self.ov.loop_hooks.values().any(|t| has(t)) || self.ov.stmts.iter().any(|t| has(&t.3))) {
                    let inv = index_name(&inv, &v, &k);
                    return (
                        format!("{{ {before}\nfor {k} in {e}\n{inv}\n{{ let {} = {k}; {start}\n", self.t(pat.span())),
                        format!("\n{end}\n"),
                        format!("\n{after} }}"),
                    );
                }
                (
                    format!("{{ {before}\nfor {v} in {e}\n{inv}\n{{ {start}\n"),
                    format!("\n{end}\n"),
                    format!("\n{after} }}"),
                )
            }
            Src::Rev { text } => (
                format!("{{ {before}\nfor {} in ({text}).rev()\n{inv}\n{{ {start}\n", self.t(pat.span())),
                format!("\n{end}\n"),
                format!("\n{after} }}"),
            ),
            Src::Back { text } => {
                let b = self.bind(&pat, &format!("__s{n}[__s{n}.len() - 1 - {k}]"), false);
                (
                    format!("{{ let __s{n} = &{text}; {before}\nfor {k} in 0..__s{n}.len()\n{inv}\n{{ {idx_bind} {b} {start}\n"),
                    format!("\n{end}\n"),
                    format!("\n{after} }}"),
                )
            }
            Src::Place { shared, text, mutable, limit } => {
                let (mut pre, place) = if shared {
                    (format!("let __s{n} = {text};"), format!("__s{n}"))
                } else {
                    (String::new(), text)
                };
                let mut count = format!("{place}.len()");
                if let Some(l) = limit {
                    pre.push_str(&format!(" let __m{n} = vx_min({place}.len(), {l});"));
                    count = format!("__m{n}");
                }
                let b = self.bind(&pat, &format!("{place}[{k}]"), mutable);
                (
                    format!("{{ {pre} {before}\nfor {k} in 0..{count}\n{inv}\n{{ {idx_bind} {b} {start}\n"),
                    format!("\n{end}\n"),
                    format!("\n{after} }}"),
                )
            }
            Src::Chunks { text, n: cn, exact } => {
                let (cnt, get) = if exact {
                    ("vx_chunks_exact_count", "vx_chunk_exact")
                } else {
                    ("vx_chunks_count", "vx_chunk")
                };
                let b = self.bind_val(&pat, &format!("{get}(__s{n}, __n{n}, {k})"));
                (
                    format!("{{ let __s{n} = {text}; let __n{n}: usize = {cn}; let __c{n} = {cnt}(__s{n}, __n{n}); {before}\nfor {k} in 0..__c{n}\n{inv}\n{{ {idx_bind} {b} {start}\n"),
                    format!("\n{end}\n"),
                    format!("\n{after} }}"),
                )
            }
            Src::ZipTakeWhile { a, cond, closure, b, b_mut } => {
                let mut binds = String::new();
                if let syn::Pat::Tuple(t) = &pat {
                    if t.elems.len() == 2 {
                        binds = format!(
                            "{} {}",
                            self.bind(&t.elems[0], &format!("{a}[{k}]"), false),
                            self.bind(&t.elems[1], &format!("{b}[{k}]"), b_mut)
                        );
                    }
                }
                (
                    format!("{{ let mut {k}: usize = 0; {before}\nwhile {k} < {a}.len() && {k} < {b}.len()\n{inv}\n{{ if !({{ let {closure} = &&{a}[{k}]; {cond} }}) {{ break; }} {binds} {start}\n"),
                    format!("\n{end}\n {k} = {k} + 1;"),
                    format!("\n{after} }}"),
                )
            }
            Src::Zip { a, b, a_mut, b_mut } => {
                let mut binds = String::new();
                if let syn::Pat::Tuple(t) = &pat {
                    if t.elems.len() == 2 {
                        binds = format!(
                            "{} {}",
                            self.bind(&t.elems[0], &format!("{a}[{k}]"), a_mut),
                            self.bind(&t.elems[1], &format!("{b}[{k}]"), b_mut)
                        );
                    }
                }
                (
                    format!("{{ let __m{n} = vx_min({a}.len(), {b}.len()); {before}\nfor {k} in 0..__m{n}\n{inv}\n{{ {idx_bind} {binds} {start}\n"),
                    format!("\n{end}\n"),
                    format!("\n{after} }}"),
                )
            }
        }
    }

    fn stmt_ghost(&mut self, text: &str) -> (String, String) {
        let st = strip(text);
        let (mut b, mut a) = (String::new(), String::new());
        for (i, (before, pat, nth, ghost)) in self.ov.stmts.iter().enumerate() {
            if st.starts_with(&strip(pat)) {
                let c = self.stmt_hits.entry(i).or_insert(0);
                let here = *c;
                *c += 1;
                if here == *nth {
                    self.stmt_done.insert(i, true);
                    if *before {
                        b.push_str(ghost);
                    } else {
                        a.push_str(ghost);
                    }
                }
            }
        }
        (b, a)
    }
}

struct V<'a, 'b> {
    rw: &'b mut Rw<'a>,
    e: Edits,
}

impl<'a, 'b, 'ast> Visit<'ast> for V<'a, 'b> {
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        let bare = std::mem::replace(&mut self.rw.bare, false);
        let (mut h, t, mut s) = self.rw.for_loop(f);
        if bare {
            // statement position: no extra block, so ghost variables stay in scope
            h = h.trim_start_matches('{').to_string();
            s = s.trim_end().trim_end_matches('}').to_string();
        }
        let (a, _) = rng(f.span());
        let ob = rng(f.body.brace_token.span.open());
        let cb = rng(f.body.brace_token.span.close());
        self.e.rep(a, ob.1, h);
        self.visit_block(&f.body);
        self.e.ins(cb.0, t);
        self.e.ins(cb.1, s);
    }
    fn visit_expr_while(&mut self, f: &'ast syn::ExprWhile) {
        let bare = std::mem::replace(&mut self.rw.bare, false);
        let (lb, rb) = if bare { ("", "") } else { ("{", "}") };
        let n = self.rw.next_loop();
        self.rw.shape.push("while".into());
        let inv = self.rw.inv(n);
        let (start, end, before, after) =
            (self.rw.hook(n, "start"), self.rw.hook(n, "end"), self.rw.hook(n, "before"), self.rw.hook(n, "after"));
        let (a, _) = rng(f.span());
        let ob = rng(f.body.brace_token.span.open());
        let cb = rng(f.body.brace_token.span.close());
        self.e.ins(a, format!("{lb} {before}\n"));
        self.visit_expr(&f.cond);
        self.e.ins(ob.0, format!("\n{inv}\n"));
        self.e.ins(ob.1, format!("\n{start}\n"));
        self.visit_block(&f.body);
        self.e.ins(cb.0, format!("\n{end}\n"));
        self.e.ins(cb.1, format!("\n{after} {rb}"));
    }
    fn visit_expr_loop(&mut self, f: &'ast syn::ExprLoop) {
        let bare = std::mem::replace(&mut self.rw.bare, false);
        let (lb, rb) = if bare { ("", "") } else { ("{", "}") };
        let n = self.rw.next_loop();
        self.rw.shape.push("loop".into());
        let inv = self.rw.inv(n);
        let (start, end, before, after) =
            (self.rw.hook(n, "start"), self.rw.hook(n, "end"), self.rw.hook(n, "before"), self.rw.hook(n, "after"));
        let (a, _) = rng(f.span());
        let ob = rng(f.body.brace_token.span.open());
        let cb = rng(f.body.brace_token.span.close());
        self.e.ins(a, format!("{lb} {before}\n"));
        self.e.ins(ob.0, format!("\n{inv}\n"));
        self.e.ins(ob.1, format!("\n{start}\n"));
        self.visit_block(&f.body);
        self.e.ins(cb.0, format!("\n{end}\n"));
        self.e.ins(cb.1, format!("\n{after} {rb}"));
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if m.method == "to_be_bytes" && m.args.is_empty() {
            let (a, b) = rng(m.method.span());
            self.e.rep(a, b, "vx_to_be_bytes".into());
        }
        if m.method == "collect" && m.args.is_empty() {
            if let Some(it) = Rw::method(&m.receiver, "iter", 0) {
                let x = self.rw.expr(&it.receiver);
                let (a, b) = rng(m.span());
                self.e.rep(a, b, format!("vx_collect_refs(&{x})"));
                return;
            }
        }
        if m.method == "fold" && m.args.len() == 2 {
            if let (Some(it), syn::Expr::Closure(c)) = (Rw::method(&m.receiver, "iter", 0), &m.args[1]) {
                if c.inputs.len() == 2 {
                    let n = self.rw.next_loop();
                    self.rw.shape.push("fold".into());
                    let inv = self.rw.inv(n);
                    let (start, end, before, after) =
                        (self.rw.hook(n, "start"), self.rw.hook(n, "end"), self.rw.hook(n, "before"), self.rw.hook(n, "after"));
                    let x = self.rw.expr(&it.receiver);
                    let init = self.rw.expr(&m.args[0]);
                    let acc = self.rw.t(c.inputs[0].span()).to_string();
                    let el = self.rw.bind(&c.inputs[1], &format!("__s{n}[__k{n}]"), false);
                    let body = self.rw.expr(&c.body);
                    let (a, b) = rng(m.span());
                    self.e.rep(
                        a,
                        b,
                        format!(
                            "{{ let __s{n} = &{x}; let mut __acc{n} = {init}; {before}\nfor __k{n} in 0..__s{n}.len()\n{inv}\n{{ {start} {el} let {acc} = __acc{n}; __acc{n} = {body}; {end} }}\n{after} __acc{n} }}"
                        ),
                    );
                    return;
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        if let (true, Some(x)) = (self.rw.rets, &r.expr) {
            let err = matches!(&**x, syn::Expr::Call(c) if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Err")));
            if !err {
                let (s, e) = rng(x.span());
                self.e.ins(s, "{ let __vx_r = ".into());
                self.visit_expr(x);
                let end = self.rw.ov.end.clone();
                self.e.ins(e, format!(";\n{end}\n__vx_r }}"));
                return;
            }
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let r = std::mem::replace(&mut self.rw.rets, false);
        visit::visit_expr_closure(self, c);
        self.rw.rets = r;
    }
    fn visit_lit_byte_str(&mut self, l: &'ast syn::LitByteStr) {
        let v: Vec<String> = l.value().iter().map(|b| format!("{b}u8")).collect();
        let (a, b) = rng(l.span());
        self.e.rep(a, b, format!("(&[{}])", v.join(", ")));
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let (syn::Pat::Reference(r), Some(init)) = (&l.pat, &l.init) {
            let inner = self.rw.t(r.pat.span()).to_string();
            let (a, b) = rng(l.pat.span());
            self.e.rep(a, b, inner);
            let (s, e) = rng(init.expr.span());
            self.e.ins(s, "*(".into());
            self.visit_expr(&init.expr);
            self.e.ins(e, ")".into());
            return;
        }
        visit::visit_local(self, l);
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        for (i, s) in b.stmts.iter().enumerate() {
            let (sa, sb) = rng(s.span());
            let text = &self.rw.src[sa..sb];
            let (gb, ga) = self.rw.stmt_ghost(text);
            if !gb.is_empty() {
                self.e.ins(sa, format!("\n{gb}\n"));
            }
            match s {
                syn::Stmt::Item(syn::Item::Const(c)) => {
                    let (a, e) = rng(c.const_token.span());
                    self.e.rep(a, e, "let".into());
                    self.visit_expr(&c.expr);
                }
                syn::Stmt::Expr(syn::Expr::ForLoop(_) | syn::Expr::While(_), _)
                | syn::Stmt::Expr(syn::Expr::Loop(_), Some(_)) => {
                    self.rw.bare = true;
                    visit::visit_stmt(self, s)
                }
                syn::Stmt::Expr(syn::Expr::Loop(_), None) => {
                    self.rw.bare = i + 1 < b.stmts.len();
                    visit::visit_stmt(self, s);
                    self.rw.bare = false;
                }
                _ => visit::visit_stmt(self, s),
            }
            if !ga.is_empty() {
                self.e.ins(sb, format!("\n{ga}\n"));
            }
        }
    }
}

/// longest common subsequence: pairs of matching positions
pub fn lcs(a: &[String], b: &[String]) -> Vec<(usize, usize)> {
    let (n, m) = (a.len(), b.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            t[i][j] = if a[i] == b[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let (mut i, mut j, mut out) = (0, 0, vec![]);
    while i < n && j < m {
        if a[i] == b[j] {
            out.push((i, j));
            i += 1;
            j += 1;
        } else if t[i + 1][j] >= t[i][j + 1] {
            i += 1;
        } else {
            j += 1;
        }
    }
    out
}

/// new name -> contract name for locals that stand at corresponding places
fn renames(new: &[String], base: &[String]) -> Vec<(String, String)> {
    let mut out = vec![];
    let mut al = lcs(new, base);
    al.push((new.len(), base.len()));
    let (mut i, mut j) = (0, 0);
    for (x, y) in al {
        if x - i == y - j {
            for k in 0..x - i {
                out.push((new[i + k].clone(), base[j + k].clone()));
            }
        }
        i = x + 1;
        j = y + 1;
    }
    out
}

/// replace whole words
fn word_replace(text: &str, from: &str, to: &str) -> String {
    let c = |x: Option<char>| x.map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false);
    let mut out = String::new();
    let mut at = 0;
    for (i, _) in text.match_indices(from) {
        if i < at || c(text[..i].chars().last()) || c(text[i + from.len()..].chars().next()) || text[..i].ends_with('.') && !text[..i].ends_with("..") {
            continue;
        }
        out.push_str(&text[at..i]);
        out.push_str(to);
        at = i + from.len();
    }
    out.push_str(&text[at..]);
    out
}

/// the name the source gives the index of a loop -> its name in the extracted text, unless the contract binds that name itself
fn index_name(inv: &str, v: &str, k: &str) -> String {
    let bound = [format!("|{v}:"), format!("{v}: int"), format!("{v}: nat")].iter().any(|b| inv.contains(b));
    if bound {
        inv.to_string()
    } else {
        word_replace(inv, v, k)
    }
}

/// `let n = ...` may be called `o` although an outer `o` exists: `o` is not used behind that statement
fn shadow_free(text: &str, n: &str, o: &str) -> bool {
    fn idents(text: &str, w: &str) -> Vec<usize> {
        text.match_indices(w)
            .map(|x| x.0)
            .filter(|&i| {
                let c = |x: Option<char>| x.map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false);
                !c(text[..i].chars().last()) && !c(text[i + w.len()..].chars().next())
            })
            .collect()
    }
    let Some(&first) = idents(text, n).first() else { return false };
    let before = text[..first].trim_end();
    if !(before.ends_with("let") || before.ends_with("mut")) {
        return false;
    }
    let Some(end) = text[first..].find(';') else { return false };
    idents(text, o).into_iter().all(|i| i < first + end)
}

#[allow(clippy::too_many_arguments)]
pub fn function_body(
    src: &str,
    block: &syn::Block,
    ov: &FnOverlay,
    cfg: &Cfg,
    macros: &BTreeMap<String, MacroDef>,
    params: &[String],
    baseline: Option<Vec<String>>,
    shape: Option<Vec<String>>,
    result: bool,
    ptrs: &[String],
) -> Out {
    let o = function_body_(src, block, ov, cfg, macros, params, baseline.clone(), vec![], result, ptrs);
    match shape {
        // loops were added or removed: let the contract's loops keep their numbers
        Some(base) if base != o.shape => {
            let mut alias = vec![usize::MAX; o.shape.len()];
            for (i, j) in lcs(&o.shape, &base) {
                alias[i] = j;
            }
            // a loop written in another way keeps its place
            if base.len() == o.shape.len() {
                alias = (0..base.len()).collect();
            }
            function_body_(src, block, ov, cfg, macros, params, baseline, alias, result, ptrs)
        }
        _ => o,
    }
}

#[allow(clippy::too_many_arguments)]
fn function_body_(
    src: &str,
    block: &syn::Block,
    ov: &FnOverlay,
    cfg: &Cfg,
    macros: &BTreeMap<String, MacroDef>,
    params: &[String],
    baseline: Option<Vec<String>>,
    alias: Vec<usize>,
    result: bool,
    ptrs: &[String],
) -> Out {
    // what is claimed of the result at the end of a fallible function concerns its success
    let mut cov = ov.clone();
    if result && cov.end.trim_start().starts_with("proof {") && !cov.end.contains("__vx_r") {
        let t = cov.end.trim().to_string();
        cov.end = format!("proof {{ if __vx_r is Ok {{ {} }} }}\n", &t["proof {".len()..t.len() - 1]);
    }
    let ov = &cov;
    let (a, b) = rng(block.span());
    let text = src[a..b].to_string();
    let text = expand_all(text, macros);
    let text = drop_cfg(text, cfg);
    let text = drop_fns(text);
    let text = drop_continue(text);
    let text = crate::pointers::rewrite(text, ptrs);

    // locals, and renaming to the contract's names
    let mut renamed = None;
    let mut rename = BTreeMap::new();
    let mut locals: Vec<String> = params.to_vec();
    if let Ok(bl) = syn::parse_str::<syn::Block>(&text) {
        let mut l = Locals { names: vec![] };
        l.visit_block(&bl);
        locals.extend(l.names);
    }
    if let Some(base) = baseline {
        if base != locals {
            let mut m: BTreeMap<String, String> = BTreeMap::new();
            let mut bad: Vec<String> = vec![];
            for (n, o) in renames(&locals, &base) {
                let clash = m.get(&n).map(|x| *x != o).unwrap_or(false) || m.iter().any(|(k, v)| *v == o && *k != n);
                if base.contains(&n) || clash || (locals.contains(&o) && !shadow_free(&text, &n, &o)) {
                    bad.push(n);
                } else {
                    m.insert(n, o);
                }
            }
            m.retain(|k, v| k != v && !bad.contains(k));
            // names the contract does not know must not hide names it uses
            for n in &locals {
                if !base.contains(n) && !m.contains_key(n) && n != "_" && n != "self" {
                    m.insert(n.clone(), format!("{n}__l"));
                }
            }
            if !m.is_empty() {
                renamed = Some(m.iter().map(|(k, v)| format!("{k}->{v}")).collect::<Vec<_>>().join(", "));
                rename = m;
            }
        }
    }
    let text = rename_text(text, &rename);

    let Ok(bl) = syn::parse_str::<syn::Block>(&text) else {
        return Out { text, lost: vec!["body does not parse after expansion".into()], renamed, locals, shape: vec![], rename };
    };
    let mut rw = Rw {
        src: &text,
        ov,
        loops: 0,
        stmt_hits: BTreeMap::new(),
        stmt_done: BTreeMap::new(),
        used_loops: vec![],
        lost: vec![],
        shape: vec![],
        bare: false,
        alias,
        rets: !ov.end.is_empty(),
    };
    let mut v = V { rw: &mut rw, e: Edits::new() };
    // whole body
    v.visit_block(&bl);
    let mut e = v.e;
    let ob = rng(bl.brace_token.span.open());
    let cb = rng(bl.brace_token.span.close());
    if !ov.start.is_empty() {
        let n = e.v.len();
        e.v.insert(0, (ob.1, ob.1, format!("\n{}\n", ov.start), 0));
        let _ = n;
        for (i, x) in e.v.iter_mut().enumerate() {
            x.3 = i;
        }
    }
    if !ov.end.is_empty() || !ov.tail.is_empty() {
        let tail = match bl.stmts.last() {
            Some(syn::Stmt::Expr(x, None)) => Some(x.clone()),
            _ => None,
        };
        let unit_tail = matches!(
            tail,
            Some(syn::Expr::ForLoop(_)) | Some(syn::Expr::While(_)) | None
        );
        match tail {
            Some(x) if !unit_tail => {
                let (s, en) = rng(x.span());
                // insert before everything already placed at s
                e.v.insert(0, (s, s, format!("\n{}\nlet __vx_r = ", ov.tail), 0));
                for (i, x) in e.v.iter_mut().enumerate() {
                    x.3 = i;
                }
                e.ins(en, format!(";\n{}\n__vx_r", ov.end));
            }
            _ => e.ins(cb.0, format!("\n{}\n{}\n", ov.tail, ov.end)),
        }
    }
    let n = text.len();
    let out = e.apply(&text, 0, n);
    for k in ov.loops.keys().chain(ov.loop_hooks.keys().map(|x| &x.0)) {
        if !rw.used_loops.contains(k) {
            rw.lost.push(format!("loop {k} not found"));
        }
    }
    for (i, (_, p, nth, _)) in ov.stmts.iter().enumerate() {
        if !rw.stmt_done.get(&i).copied().unwrap_or(false) {
            rw.lost.push(format!("statement `{p}` (#{nth}) not found"));
        }
    }
    let (lost, shape) = (rw.lost, rw.shape);
    Out { text: out, lost, renamed, locals, shape, rename }
}
