//! Normalisations that do not change meaning: attributes and `use` removed, module prefixes of
//! paths dropped, type parameters replaced by the concrete type, assert_eq!'s expansion folded.
use quote::ToTokens;
use std::collections::HashMap;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Subst<'a> {
    pub map: &'a HashMap<String, Type>,
    pub self_ty: Option<&'a Type>,
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() {
                let n = p.path.segments[0].ident.to_string();
                if let Some(r) = self.map.get(&n) {
                    *t = r.clone();
                    return;
                }
                if n == "Self" {
                    if let Some(s) = self.self_ty {
                        *t = s.clone();
                        return;
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
        // <T>::X / T::X with T replaced by a plain path type
        if let Type::Path(p) = t {
            fix_path(self, &mut p.qself, &mut p.path);
        }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        visit_mut::visit_expr_path_mut(self, p);
        fix_path(self, &mut p.qself, &mut p.path);
    }
}
fn fix_path(s: &Subst, q: &mut Option<QSelf>, path: &mut Path) {
    if q.is_none() && path.segments.len() >= 2 && path.segments[0].arguments.is_none() {
        let n = path.segments[0].ident.to_string();
        let r = s.map.get(&n).or(if n == "Self" { s.self_ty } else { None });
        if let Some(Type::Path(tp)) = r {
            let mut segs = tp.path.segments.clone();
            // Type<..>::f in expression position needs turbofish
            if let Some(l) = segs.last_mut() {
                if let PathArguments::AngleBracketed(a) = &mut l.arguments {
                    a.colon2_token = Some(Default::default());
                }
            }
            for x in path.segments.iter().skip(1) {
                segs.push(x.clone());
            }
            path.segments = segs;
        }
    }
}

const PRIMS: &[&str] = &[
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f64", "f32", "bool", "char", "str",
];
pub struct PathStrip;
impl PathStrip {
    fn strip(p: &mut Path) {
        p.leading_colon = None;
        let n = p.segments.len();
        if n < 2 {
            return;
        }
        let mut k = n - 1;
        for (i, s) in p.segments.iter().enumerate() {
            let id = s.ident.to_string();
            if id.chars().next().unwrap().is_uppercase() || PRIMS.contains(&id.as_str()) && i + 1 < n {
                k = i;
                break;
            }
        }
        let v: Vec<PathSegment> = p.segments.iter().skip(k).cloned().collect();
        p.segments = v.into_iter().collect();
    }
}
impl VisitMut for PathStrip {
    fn visit_path_mut(&mut self, p: &mut Path) {
        Self::strip(p);
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        simplify_q(&mut p.qself, &mut p.path);
        if p.qself.is_none() {
            Self::strip(&mut p.path);
        } else {
            strip_q(&mut p.qself, &mut p.path);
        }
        visit_mut::visit_type_path_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        simplify_q(&mut p.qself, &mut p.path);
        if p.qself.is_none() {
            Self::strip(&mut p.path);
        } else {
            strip_q(&mut p.qself, &mut p.path);
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
}
/// <u64>::BITS -> u64::BITS
fn simplify_q(q: &mut Option<QSelf>, path: &mut Path) {
    if let Some(qs) = q {
        if qs.position == 0 {
            if let Type::Path(tp) = &*qs.ty {
                if tp.qself.is_none() {
                    let mut segs = tp.path.segments.clone();
                    if let Some(l) = segs.last_mut() {
                        if let PathArguments::AngleBracketed(a) = &mut l.arguments {
                            a.colon2_token = Some(Default::default());
                        }
                    }
                    for x in path.segments.iter() {
                        segs.push(x.clone());
                    }
                    path.segments = segs;
                    path.leading_colon = None;
                    *q = None;
                }
            }
        }
    }
}
/// <T as a::b::Trait>::X -> <T as Trait>::X
fn strip_q(q: &mut Option<QSelf>, path: &mut Path) {
    if let Some(qs) = q {
        let pos = qs.position;
        if pos > 1 {
            let all: Vec<PathSegment> = path.segments.iter().cloned().collect();
            let mut tr: Vec<PathSegment> = all[..pos].to_vec();
            tr = tr.split_off(pos - 1);
            tr.extend(all[pos..].iter().cloned());
            path.segments = tr.into_iter().collect();
            path.leading_colon = None;
            qs.position = 1;
        }
        path.leading_colon = None;
    }
}

pub struct Rename<'a> {
    pub map: &'a HashMap<String, String>,
}
impl<'a> VisitMut for Rename<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            let s = &mut p.path.segments[0];
            if let Some(n) = self.map.get(&s.ident.to_string()) {
                s.ident = Ident::new(n, s.ident.span());
            }
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
}

pub struct Clean;
fn tok(e: &impl ToTokens) -> String {
    crate::squash(&e.to_token_stream().to_string())
}
impl Clean {
    fn is_fmt_panic(e: &Expr) -> bool {
        // core::panicking::panic_fmt(..) / panic("..") / assert_failed / unreachable
        if let Expr::Call(c) = e {
            let f = tok(&c.func);
            return f.ends_with("panicking::panic")
                || f.ends_with("panicking::panic_fmt")
                || f.ends_with("panicking::assert_failed")
                || f.ends_with("panicking::panic_display")
                || f.ends_with("panicking::unreachable_display")
                || f.ends_with("panicking::unreachable_default_msg")
                || f.ends_with("panicking::unimplemented_default_msg")
                || f.ends_with("panicking::panic_explicit")
                || f.ends_with("panicking::panic_str_2015")
                || f.ends_with("rt::begin_panic");
        }
        false
    }
}
impl VisitMut for Clean {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // items of no effect in the expanded text: imports, macro definitions
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))) && !matches!(s, Stmt::Item(Item::Macro(m)) if m.ident.is_some()));
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if Self::is_fmt_panic(e) {
            *e = parse_quote!(vpanic());
            return;
        }
        // assert_eq!'s expansion
        if let Expr::Match(m) = e {
            if let Expr::Tuple(t) = &*m.expr {
                if t.elems.len() == 2 && m.arms.len() == 1 {
                    let s = tok(&m.arms[0].body);
                    if s.contains("assert_failed") && s.contains("*left_val==*right_val") {
                        let strip = |x: &Expr| match x {
                            Expr::Reference(r) => (*r.expr).clone(),
                            x => x.clone(),
                        };
                        let (l, r) = (strip(&t.elems[0]), strip(&t.elems[1]));
                        let neg = s.contains("if!(*left_val==*right_val)");
                        let mut n: Expr = if neg {
                            parse_quote!(if !(#l == #r) { vpanic() })
                        } else {
                            parse_quote!(if #l == #r { vpanic() })
                        };
                        visit_mut::visit_expr_mut(self, &mut n);
                        *e = n;
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub struct AsRefStrip<'a> {
    pub names: &'a std::collections::BTreeSet<String>,
}
impl<'a> VisitMut for AsRefStrip<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.args.is_empty() && (m.method == "as_ref" || m.method == "as_mut") {
                if let Expr::Path(p) = &*m.receiver {
                    if p.path.get_ident().map_or(false, |i| self.names.contains(&i.to_string())) {
                        *e = (*m.receiver).clone();
                    }
                }
            }
        }
    }
}

/// rule chunk-local: `let mut it = V.chunks_exact[_mut](N); for c in &mut it {..}` followed by uses of
/// `it.into_remainder()` / `it.remainder()` becomes the loop over the adaptor and `V[V.len() / N * N..]`
pub fn chunk_locals(b: &mut Block) -> bool {
    struct Go(bool);
    impl VisitMut for Go {
        fn visit_block_mut(&mut self, b: &mut Block) {
            loop {
                let mut hit = None;
                for (i, s) in b.stmts.iter().enumerate() {
                    let Stmt::Local(l) = s else { continue };
                    let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) else { continue };
                    let Expr::MethodCall(m) = &*init.expr else { continue };
                    let mt = m.method == "chunks_exact_mut";
                    if !(mt || m.method == "chunks_exact") || m.args.len() != 1 || !matches!(&*m.receiver, Expr::Path(_)) || !matches!(&m.args[0], Expr::Lit(_)) { continue }
                    let mut sc = Scan::default();
                    for t in &b.stmts[i + 1..] { syn::visit::Visit::visit_stmt(&mut sc, t); }
                    let name = p.ident.to_string();
                    let mut u = ChunkUse { name: &name, m, mt, n: 0, dry: true };
                    let mut rest = b.stmts[i + 1..].to_vec();
                    rest.iter_mut().for_each(|t| u.visit_stmt_mut(t));
                    if u.n == sc.paths.iter().filter(|x| **x == name).count() && !sc.binds.contains(&name) { hit = Some((i, name, m.clone(), mt)); break }
                }
                let Some((i, name, m, mt)) = hit else { break };
                b.stmts.remove(i);
                let mut u = ChunkUse { name: &name, m: &m, mt, n: 0, dry: false };
                b.stmts[i..].iter_mut().for_each(|t| u.visit_stmt_mut(t));
                self.0 = true;
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    let mut g = Go(false);
    g.visit_block_mut(b);
    g.0
}
struct ChunkUse<'a> { name: &'a str, m: &'a ExprMethodCall, mt: bool, n: usize, dry: bool }
impl<'a> VisitMut for ChunkUse<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let is = |x: &Expr| matches!(x, Expr::Path(p) if p.path.is_ident(self.name));
        let new = match e {
            Expr::ForLoop(f) => match &*f.expr {
                Expr::Reference(r) if r.mutability.is_some() && is(&r.expr) => {
                    let mut g = f.clone();
                    g.expr = Box::new(Expr::MethodCall(self.m.clone()));
                    Expr::ForLoop(g)
                }
                _ => return,
            },
            Expr::MethodCall(c) if is(&c.receiver) && c.args.is_empty() && c.method == (if self.mt { "into_remainder" } else { "remainder" }) => {
                let (v, n) = (&self.m.receiver, &self.m.args[0]);
                if self.mt { parse_quote!(#v[#v.len() / #n * #n..].iter_mut()) } else { parse_quote!(#v[#v.len() / #n * #n..].iter()) }
            }
            _ => return,
        };
        self.n += 1;
        if !self.dry { *e = new; }
    }
}
/// rule inline-closure: `let f = |x: T| body;` (also inside `Box::new`), used only as `f(e)` or handed
/// on by name, becomes `{ let x: T = e; body }` at each use; refused (left alone) when a name the body
/// captures is bound more than once in the function or the body has control flow leaving it
pub fn inline_closures(b: &mut Block) -> bool {
    let mut any = inline_here(b, &[]);
    // blocks inside: names are counted over the whole function
    let mut whole = Scan::default();
    syn::visit::Visit::visit_block(&mut whole, b);
    struct Nested { binds: Vec<String>, any: bool, top: bool }
    impl VisitMut for Nested {
        fn visit_block_mut(&mut self, b: &mut Block) {
            if !self.top { self.any |= inline_here(b, &self.binds); }
            self.top = false;
            visit_mut::visit_block_mut(self, b);
        }
    }
    let mut n = Nested { binds: whole.binds, any: false, top: true };
    n.visit_block_mut(b);
    any |= n.any;
    any
}
fn inline_here(b: &mut Block, outer: &[String]) -> bool {
    let mut any = false;
    loop {
        let mut found = None;
        for (i, s) in b.stmts.iter().enumerate() {
            let Stmt::Local(l) = s else { continue };
            let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) else { continue };
            if p.by_ref.is_some() || p.subpat.is_some() || init.diverge.is_some() { continue }
            let mut e = &*init.expr;
            loop {
                match e {
                    Expr::Paren(x) => e = &x.expr,
                    Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string().replace(' ', "").ends_with("Box::new") => e = &c.args[0],
                    _ => break,
                }
            }
            let Expr::Closure(c) = e else { continue };
            if c.asyncness.is_some() || !matches!(c.output, ReturnType::Default) { continue }
            if !c.inputs.iter().all(|p| matches!(p, Pat::Ident(_)) || matches!(p, Pat::Type(t) if matches!(&*t.pat, Pat::Ident(_)))) { continue }
            let mut sc = Scan::default();
            syn::visit::Visit::visit_expr(&mut sc, &c.body);
            if sc.leaves { continue }
            let params: Vec<String> = c.inputs.iter().map(|p| match p { Pat::Type(t) => t.pat.to_token_stream().to_string(), p => p.to_token_stream().to_string() }).map(|s| s.replace("mut ", "")).collect();
            let mut whole = Scan::default();
            syn::visit::Visit::visit_block(&mut whole, b);
            if !outer.is_empty() { whole.binds = outer.to_vec(); }
            let name = p.ident.to_string();
            let inner: std::collections::HashSet<&String> = sc.binds.iter().collect();
            if sc.paths.iter().any(|x| !params.contains(x) && !inner.contains(x) && whole.binds.iter().filter(|y| *y == x).count() > 1) { continue }
            if whole.binds.iter().filter(|y| **y == name).count() != 1 || sc.paths.contains(&name) { continue }
            found = Some((i, name, c.clone()));
            break;
        }
        let Some((i, name, c)) = found else { return any };
        b.stmts.remove(i);
        let mut r = InlineUse { name: &name, c: &c };
        r.visit_block_mut(b);
        any = true;
    }
}
#[derive(Default)]
struct Scan { binds: Vec<String>, paths: Vec<String>, leaves: bool }
impl<'a> syn::visit::Visit<'a> for Scan {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.binds.push(p.ident.to_string()); syn::visit::visit_pat_ident(self, p); }
    fn visit_expr_path(&mut self, p: &'a ExprPath) { if let Some(i) = p.path.get_ident() { self.paths.push(i.to_string()); } }
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.leaves = true; }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.leaves = true; }
    fn visit_macro(&mut self, m: &'a Macro) { let _ = m; self.leaves = true; }
}
struct InlineUse<'a> { name: &'a str, c: &'a ExprClosure }
impl<'a> InlineUse<'a> {
    fn is_it(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| i == self.name),
            Expr::Paren(p) => self.is_it(&p.expr),
            Expr::Reference(r) => self.is_it(&r.expr),
            _ => false,
        }
    }
}
impl<'a> VisitMut for InlineUse<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(k) = e {
            if self.is_it(&k.func) && k.args.len() == self.c.inputs.len() {
                let mut out: Vec<Stmt> = vec![];
                let mut args: Vec<Expr> = k.args.iter().cloned().collect();
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                if args.len() == 1 {
                    let (a, p) = (&args[0], &self.c.inputs[0]);
                    out.push(parse_quote!(let #p = #a;));
                } else {
                    for (i, a) in args.iter().enumerate() { let t = quote::format_ident!("__ic{}", i); out.push(parse_quote!(let #t = #a;)); }
                    for (i, p) in self.c.inputs.iter().enumerate() { let t = quote::format_ident!("__ic{}", i); out.push(parse_quote!(let #p = #t;)); }
                }
                let body = &self.c.body;
                *e = parse_quote!({ #(#out)* #body });
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            for a in m.args.iter_mut() { if self.is_it(a) { *a = Expr::Closure(self.c.clone()); } }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
