//! R11: raw pointers into slices and vectors become cursors with contracts.
//!   `S.as_ptr()`                          -> `crate::base::vx_as_ptr(S)` (slice and position)
//!   `V.as_mut_ptr()`                      -> `crate::base::vx_as_mut_ptr()` (position; V is remembered)
//!   transmute / `as *mut T` of a pointer  -> the pointer
//!   `*p` (read)                           -> `p.vx_read()`
//!   `*p = e`                              -> `crate::base::vx_write(&mut V, p, e)`
//!   `_mm256_loadu_si256(p)`, `_mm256_storeu_si256(p, v)` -> `crate::simd::vx_loadu(&*V, p)`, `crate::simd::vx_storeu(&mut *V, p, v)`
//!   `let x: [i32; 8] = transmute(e)`      -> `crate::simd::vx_i32x8(e)`
//!   `is_x86_feature_detected!(..)`        -> `crate::simd::vx_feature_detected()` (any answer)
//! Arithmetic on pointers keeps its text (`add`, `offset`); the cursors have methods of these names.
use crate::rewrite::Edits;
use std::collections::BTreeMap;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

fn rng(s: proc_macro2::Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

#[derive(Clone, Debug)]
enum Kind {
    Const,
    Mut(String),
}

struct P<'a> {
    src: &'a str,
    ptrs: BTreeMap<String, Kind>,
    e: Edits,
    hit: bool,
}

fn strip_paren(mut e: &syn::Expr) -> &syn::Expr {
    loop {
        match e {
            syn::Expr::Paren(p) => e = &p.expr,
            syn::Expr::Group(g) => e = &g.expr,
            _ => return e,
        }
    }
}

fn is_fn(f: &syn::Expr, name: &str) -> bool {
    matches!(f, syn::Expr::Path(p) if p.path.segments.last().map(|s| s.ident == name).unwrap_or(false))
}

impl<'a> P<'a> {
    fn t(&self, s: proc_macro2::Span) -> String {
        let (a, b) = rng(s);
        self.src[a..b].to_string()
    }
    fn root(&self, e: &syn::Expr) -> Option<Kind> {
        match strip_paren(e) {
            syn::Expr::Path(p) => p.path.get_ident().and_then(|i| self.ptrs.get(&i.to_string()).cloned()),
            syn::Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "add" | "offset" | "sub" => self.root(&m.receiver),
                "cast" => self.root(&m.receiver),
                "as_ptr" if m.args.is_empty() => Some(Kind::Const),
                "as_mut_ptr" if m.args.is_empty() => Some(Kind::Mut(self.t(m.receiver.span()))),
                _ => None,
            },
            syn::Expr::Cast(c) if matches!(&*c.ty, syn::Type::Ptr(_)) => self.root(&c.expr),
            syn::Expr::Call(c) if is_fn(&c.func, "transmute") && c.args.len() == 1 => self.root(&c.args[0]),
            _ => None,
        }
    }
}

impl<'a, 'ast> Visit<'ast> for P<'a> {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let Some(init) = &l.init {
            // let x: [i32; 8] = transmute(e)
            if let (syn::Pat::Type(pt), syn::Expr::Call(c)) = (&l.pat, strip_paren(&init.expr)) {
                let ty: String = self.t(pt.ty.span()).chars().filter(|c| !c.is_whitespace()).collect();
                if ty == "[i32;8]" && is_fn(&c.func, "transmute") && c.args.len() == 1 {
                    let (a, b) = rng(c.func.span());
                    self.e.rep(a, b, "crate::simd::vx_i32x8".into());
                    self.hit = true;
                    self.visit_expr(&c.args[0]);
                    return;
                }
            }
            self.visit_expr(&init.expr);
            let mut pat = &l.pat;
            if let syn::Pat::Type(t) = pat {
                if self.root(&init.expr).is_some() {
                    let (a, _) = rng(t.colon_token.span());
                    let (_, b) = rng(t.ty.span());
                    self.e.rep(a, b, String::new());
                }
                pat = &t.pat;
            }
            if let syn::Pat::Ident(i) = pat {
                match self.root(&init.expr) {
                    Some(k) => {
                        self.ptrs.insert(i.ident.to_string(), k);
                    }
                    None => {
                        self.ptrs.remove(&i.ident.to_string());
                    }
                }
            }
            return;
        }
        visit::visit_local(self, l);
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        let save = self.ptrs.clone();
        visit::visit_block(self, b);
        self.ptrs = save;
    }
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        // a loop variable of the same name hides the pointer
        struct N(Vec<String>);
        impl<'x> Visit<'x> for N {
            fn visit_pat_ident(&mut self, p: &'x syn::PatIdent) {
                self.0.push(p.ident.to_string());
            }
        }
        let mut n = N(vec![]);
        n.visit_pat(&f.pat);
        self.visit_expr(&f.expr);
        let save = self.ptrs.clone();
        for x in n.0 {
            self.ptrs.remove(&x);
        }
        visit::visit_block(self, &f.body);
        self.ptrs = save;
    }
    fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) {
        if let syn::Expr::Unary(u) = strip_paren(&a.left) {
            if let (syn::UnOp::Deref(_), Some(Kind::Mut(base))) = (&u.op, self.root(&u.expr)) {
                let (s, _) = rng(a.span());
                let (xs, xe) = rng(u.expr.span());
                let (rs, re) = rng(a.right.span());
                self.hit = true;
                self.e.rep(s, xs, format!("crate::base::vx_write(&mut {base}, "));
                self.visit_expr(&u.expr);
                self.e.rep(xe, rs, ", ".into());
                self.visit_expr(&a.right);
                self.e.ins(re, ")".into());
                return;
            }
        }
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_unary(&mut self, u: &'ast syn::ExprUnary) {
        if let (syn::UnOp::Deref(d), Some(k)) = (&u.op, self.root(&u.expr)) {
            let (s, e) = rng(d.span());
            let (_, xe) = rng(u.expr.span());
            self.hit = true;
            match k {
                Kind::Const => {
                    self.e.rep(s, e, String::new());
                    self.visit_expr(&u.expr);
                    self.e.ins(xe, ".vx_read()".into());
                }
                Kind::Mut(base) => {
                    self.e.rep(s, e, format!("crate::base::vx_read_mut(&{base}, "));
                    self.visit_expr(&u.expr);
                    self.e.ins(xe, ")".into());
                }
            }
            return;
        }
        visit::visit_expr_unary(self, u);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let name = m.method.to_string();
        let (a, b) = rng(m.span());
        if name == "as_ptr" && m.args.is_empty() {
            let r = self.t(m.receiver.span());
            self.hit = true;
            self.e.rep(a, b, format!("crate::base::vx_as_ptr({r})"));
            return;
        }
        if name == "as_mut_ptr" && m.args.is_empty() {
            self.hit = true;
            self.e.rep(a, b, "crate::base::vx_as_mut_ptr()".into());
            return;
        }
        if name == "cast" && self.root(&m.receiver).is_some() {
            let (_, re) = rng(m.receiver.span());
            self.visit_expr(&m.receiver);
            self.e.rep(re, b, String::new());
            return;
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_cast(&mut self, c: &'ast syn::ExprCast) {
        if matches!(&*c.ty, syn::Type::Ptr(_)) && self.root(&c.expr).is_some() {
            let (_, xe) = rng(c.expr.span());
            let (_, b) = rng(c.span());
            self.hit = true;
            self.visit_expr(&c.expr);
            self.e.rep(xe, b, String::new());
            return;
        }
        visit::visit_expr_cast(self, c);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if is_fn(&c.func, "transmute") && c.args.len() == 1 && self.root(&c.args[0]).is_some() {
            let (a, b) = rng(c.span());
            let (xs, xe) = rng(c.args[0].span());
            self.hit = true;
            self.e.rep(a, xs, String::new());
            self.visit_expr(&c.args[0]);
            self.e.rep(xe, b, String::new());
            return;
        }
        for (name, repl) in [("_mm256_loadu_si256", "crate::simd::vx_loadu(&*"), ("_mm256_storeu_si256", "crate::simd::vx_storeu(&mut *")] {
            if is_fn(&c.func, name) && !c.args.is_empty() {
                if let Some(Kind::Mut(base)) = self.root(&c.args[0]) {
                    let (a, _) = rng(c.span());
                    let (xs, _) = rng(c.args[0].span());
                    self.hit = true;
                    self.e.rep(a, xs, format!("{repl}{base}, "));
                    for x in &c.args {
                        self.visit_expr(x);
                    }
                    return;
                }
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        if m.mac.path.segments.last().map(|s| s.ident == "is_x86_feature_detected").unwrap_or(false) {
            let (a, b) = rng(m.span());
            self.hit = true;
            self.e.rep(a, b, "crate::simd::vx_feature_detected()".into());
        }
    }
}

/// `params`: names of parameters of type `*const T`
pub fn rewrite(text: String, params: &[String]) -> String {
    let Ok(b) = syn::parse_str::<syn::Block>(&text) else { return text };
    let mut p = P { src: &text, ptrs: params.iter().map(|n| (n.clone(), Kind::Const)).collect(), e: Edits::new(), hit: false };
    for s in &b.stmts {
        p.visit_stmt(s);
    }
    if !p.hit {
        return text;
    }
    let n = text.len();
    let e = p.e;
    e.apply(&text, 0, n)
}
