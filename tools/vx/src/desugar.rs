//! Iterator chains and `for` loops become indexed `while` loops; every loop gets a marker so the
//! driver can attach its contract.  Rules (each recorded in `rules` when applied):
//!  for-range      for p in lo..hi { B }                 => i=lo; n=hi; while i<n { let p=i; i+=1; B }
//!  for-iter       for p in CHAIN { B }                  => same over the chain's index
//!  for_each/fold/rfold/sum/collect/all/any on CHAIN     => the loop each abbreviates
//! CHAIN ::= S.iter() | S.iter_mut() | S | lo..hi | CHAIN.zip(CHAIN|S) | .enumerate() | .map(closure)
//!         | .copied() | .cloned() | .rev() | .skip(n) | .take(n) | S.chunks_exact[_mut](n) | S.chunks(n)
use proc_macro2::Span;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Default)]
pub struct Desugar {
    pub loops: usize,
    pub errors: Vec<String>,
    pub rules: BTreeSet<String>,
    depth: usize,
    pub mutrefs: BTreeSet<String>,
    pub owned: BTreeSet<String>,
    /// names of array-typed parameters and locals (rule array-map)
    pub arrays: BTreeSet<String>,
}
#[derive(Clone)]
enum It {
    Slice { place: Expr, mt: bool, val: bool },
    Range { lo: Expr, hi: Expr },
    Zip(Box<It>, Box<It>),
    Enumerate(Box<It>),
    Map(Box<It>, ExprClosure),
    Rev(Box<It>),
    Skip(Box<It>, Expr),
    Take(Box<It>, Expr),
    StepBy(Box<It>, Expr),
    Chunks { place: Expr, n: Expr, mt: bool },
    ChunksUp { place: Expr, n: Expr },
    RangeFrom { lo: Expr },
    /// place[lo..hi] iterated element by element
    Sub { place: Expr, lo: Expr, hi: Expr, mt: bool },
}
enum Elem {
    Tuple(Vec<Elem>),
    Ref(Expr, bool),
    Val(Expr),
    Bound(Pat, Box<Elem>, Expr), // let pat = elem; expr
}
fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr),
        _ => false,
    }
}
fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        e => e,
    }
}
struct HasContinue(bool);
impl<'a> syn::visit::Visit<'a> for HasContinue {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
impl Desugar {
    fn source(&mut self, e: &Expr) -> Option<It> {
        match unparen(e) {
            Expr::Reference(r) => match self.chain(&r.expr) {
                Some(_) => None,
                None => Some(It::Slice { place: (*r.expr).clone(), mt: r.mutability.is_some(), val: false }),
            },
            Expr::Range(_) | Expr::MethodCall(_) | Expr::Call(_) => {
                self.chain(e).or_else(|| Some(It::Slice { place: unparen(e).clone(), mt: false, val: false }))
            }
            e if is_place(e) => {
                let mt = matches!(e, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.mutrefs.contains(&i.to_string())));
                let val = matches!(e, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.owned.contains(&i.to_string())));
                Some(It::Slice { place: e.clone(), mt, val })
            }
            _ => None,
        }
    }
    fn chain(&mut self, e: &Expr) -> Option<It> {
        match unparen(e) {
            Expr::Range(r) => match (&r.start, &r.end, &r.limits) {
                (Some(a), Some(b), RangeLimits::HalfOpen(_)) => Some(It::Range { lo: (**a).clone(), hi: (**b).clone() }),
                (Some(a), None, _) => Some(It::RangeFrom { lo: (**a).clone() }),
                _ => None,
            },
            Expr::Call(c) if c.args.len() == 1 && crate::squash(&c.func.to_token_stream().to_string()).ends_with("IntoIterator::into_iter") => {
                self.source(&c.args[0])
            }
            // rule zip-call: iter::zip(a, b) is a.into_iter().zip(b)
            Expr::Call(c) if c.args.len() == 2 && crate::squash(&c.func.to_token_stream().to_string()).rsplit("::").next() == Some("zip") => {
                let l = self.source(&c.args[0])?;
                let r = self.source(&c.args[1])?;
                self.rules.insert("zip-call".into());
                Some(It::Zip(Box::new(l), Box::new(r)))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let a0 = m.args.first().cloned();
                Some(match (n.as_str(), m.args.len()) {
                    ("iter", 0) => It::Slice { place: (*m.receiver).clone(), mt: false, val: false },
                    ("iter_mut", 0) => It::Slice { place: (*m.receiver).clone(), mt: true, val: false },
                    ("into_iter", 0) => match self.chain(&m.receiver) {
                        Some(c) => c,
                        None => self.source(&m.receiver)?,
                    },
                    ("chunks_exact", 1) => It::Chunks { place: (*m.receiver).clone(), n: a0?, mt: false },
                    ("chunks", 1) => It::ChunksUp { place: (*m.receiver).clone(), n: a0? },
                    ("chunks_exact_mut", 1) => It::Chunks { place: (*m.receiver).clone(), n: a0?, mt: true },
                    ("copied", 0) | ("cloned", 0) => match self.chain(&m.receiver)? {
                        It::Slice { place, mt: false, .. } => It::Slice { place, mt: false, val: true },
                        It::Rev(b) => match *b {
                            It::Slice { place, mt: false, .. } => It::Rev(Box::new(It::Slice { place, mt: false, val: true })),
                            _ => return None,
                        },
                        _ => return None,
                    },
                    ("zip", 1) => {
                        let l = self.chain(&m.receiver)?;
                        let r = self.source(&a0?)?;
                        It::Zip(Box::new(l), Box::new(r))
                    }
                    ("enumerate", 0) => It::Enumerate(Box::new(self.chain(&m.receiver)?)),
                    ("rev", 0) => It::Rev(Box::new(self.chain(&m.receiver)?)),
                    ("skip", 1) => It::Skip(Box::new(self.chain(&m.receiver)?), a0?),
                    ("step_by", 1) => It::StepBy(Box::new(self.chain(&m.receiver)?), a0?),
                    ("take", 1) => It::Take(Box::new(self.chain(&m.receiver)?), a0?),
                    ("map", 1) => match unparen(&a0?) {
                        Expr::Closure(c) => It::Map(Box::new(self.chain(&m.receiver)?), c.clone()),
                        f => {
                            let f = f.clone();
                            let c: ExprClosure = parse_quote!(|__x| #f(__x));
                            It::Map(Box::new(self.chain(&m.receiver)?), c)
                        }
                    },
                    _ => return None,
                })
            }
            _ => None,
        }
    }
    /// binds non-place sources to locals, returns the setup statements
    fn bind(&self, it: &mut It, k: usize, ctr: &mut usize, out: &mut Vec<Stmt>) {
        // rule subslice: `p[a..b].iter()` / `.iter_mut()` runs over the indices a..b of p
        if let It::Slice { place, mt, val: false } = it {
            if let Expr::Index(ix) = unparen(place) {
                if let (Expr::Range(r), true) = (unparen(&ix.index), is_place(unparen(&ix.expr))) {
                    if matches!(r.limits, RangeLimits::HalfOpen(_)) {
                        let base = unparen(&ix.expr).clone();
                        let lo: Expr = r.start.as_ref().map_or(parse_quote!(0), |e| (**e).clone());
                        let hi: Expr = r.end.as_ref().map_or(parse_quote!(#base.len()), |e| (**e).clone());
                        *it = It::Sub { place: base, lo, hi, mt: *mt };
                    }
                }
            }
        }
        match it {
            It::Slice { place, mt, .. } | It::Chunks { place, mt, .. } => {
                let p = unparen(place).clone();
                if !is_place(&p) {
                    let v = format_ident!("__s{}_{}", k, *ctr);
                    *ctr += 1;
                    out.push(parse_quote!(let #v = #p;));
                    let _ = mt;
                    *place = parse_quote!(#v);
                } else {
                    *place = p;
                }
            }
            It::Sub { lo, hi, place, .. } => {
                let (l, h) = (format_ident!("__lo{}_{}", k, *ctr), format_ident!("__hi{}_{}", k, *ctr));
                *ctr += 1;
                out.push(parse_quote!(let #l: usize = #lo;));
                out.push(parse_quote!(let #h: usize = #hi;));
                out.push(parse_quote!(vsub_ok(#l, #h, #place.len());));
                *lo = parse_quote!(#l);
                *hi = parse_quote!(#h);
            }
            It::ChunksUp { place, .. } => {
                let p = unparen(place).clone();
                if !is_place(&p) {
                    let v = format_ident!("__s{}_{}", k, *ctr);
                    *ctr += 1;
                    out.push(parse_quote!(let #v = #p;));
                    *place = parse_quote!(#v);
                } else {
                    *place = p;
                }
            }
            It::Zip(a, b) => {
                self.bind(a, k, ctr, out);
                self.bind(b, k, ctr, out);
            }
            It::StepBy(a, st) => {
                self.bind(a, k, ctr, out);
                let v = format_ident!("__st{}_{}", k, *ctr);
                *ctr += 1;
                out.push(parse_quote!(let #v: usize = #st;));
                *st = parse_quote!(#v);
            }
            It::Enumerate(a) | It::Map(a, _) | It::Rev(a) | It::Skip(a, _) | It::Take(a, _) => self.bind(a, k, ctr, out),
            _ => {}
        }
    }
    fn len(&self, it: &It) -> Option<Expr> {
        Some(match it {
            It::Slice { place, .. } => parse_quote!(#place.len()),
            It::Chunks { place, n, .. } => parse_quote!(#place.len() / (#n)),
            It::ChunksUp { place, n } => parse_quote!(vdivceil(#place.len(), #n)),
            It::Range { lo, hi } => {
                if lo.to_token_stream().to_string() == "0" { hi.clone() } else { parse_quote!(vlen_range(#lo, #hi)) }
            }
            It::RangeFrom { .. } => return None,
            It::Sub { lo, hi, .. } => parse_quote!((#hi - #lo)),
            It::Zip(a, b) => match (self.len(a), self.len(b)) {
                (Some(a), Some(b)) => parse_quote!(vmin(#a, #b)),
                (Some(a), None) | (None, Some(a)) => a,
                _ => return None,
            },
            It::Enumerate(a) | It::Map(a, _) | It::Rev(a) => self.len(a)?,
            It::Skip(a, n) => {
                let a = self.len(a)?;
                parse_quote!(vsatsub(#a, #n))
            }
            It::StepBy(a, n) => {
                let a = self.len(a)?;
                parse_quote!(vdivceil(#a, #n))
            }
            It::Take(a, n) => match self.len(a) {
                Some(a) => parse_quote!(vmin(#a, #n)),
                None => n.clone(),
            },
        })
    }
    fn elem(&self, it: &It, i: &Expr) -> Elem {
        match it {
            It::Slice { place, mt, val } => {
                let p: Expr = parse_quote!(#place[#i]);
                if *val { Elem::Val(p) } else { Elem::Ref(p, *mt) }
            }
            It::Chunks { place, n, mt } => {
                if *mt {
                    Elem::Val(parse_quote!(vchunk_mut(#place, #i, #n)))
                } else {
                    Elem::Val(parse_quote!(vchunk(#place, #i, #n)))
                }
            }
            It::ChunksUp { place, n } => Elem::Val(parse_quote!(vchunk_up(#place, #i, #n))),
            It::Sub { place, lo, mt, .. } => {
                let z = lo.to_token_stream().to_string() == "0";
                let p: Expr = if z { parse_quote!(#place[#i]) } else { parse_quote!(#place[(#lo + #i)]) };
                Elem::Ref(p, *mt)
            }
            It::Range { lo, .. } | It::RangeFrom { lo } => {
                if lo.to_token_stream().to_string() == "0" { Elem::Val(i.clone()) } else { Elem::Val(parse_quote!((#lo + #i))) }
            }
            It::Zip(a, b) => Elem::Tuple(vec![self.elem(a, i), self.elem(b, i)]),
            It::Enumerate(a) => Elem::Tuple(vec![Elem::Val(i.clone()), self.elem(a, i)]),
            It::Map(a, c) => Elem::Bound(
                c.inputs[0].clone(),
                Box::new(self.elem(a, i)),
                (*c.body).clone(),
            ),
            It::Rev(a) => {
                let n = self.len(a).unwrap_or(parse_quote!(0));
                self.elem(a, &parse_quote!((#n - 1 - #i)))
            }
            It::Skip(a, n) => self.elem(a, &parse_quote!((#i + #n))),
            It::Take(a, _) => self.elem(a, i),
            It::StepBy(a, n) => self.elem(a, &parse_quote!((#i * #n))),
        }
    }
    fn bindpat(&self, p: &Pat, e: Elem, out: &mut Vec<Stmt>) {
        match (p, e) {
            (Pat::Type(t), e) => self.bindpat(&t.pat, e, out),
            (Pat::Paren(t), e) => self.bindpat(&t.pat, e, out),
            (Pat::Wild(_), _) => {}
            (Pat::Tuple(t), Elem::Tuple(es)) if t.elems.len() == es.len() => {
                for (p, e) in t.elems.iter().zip(es) {
                    self.bindpat(p, e, out)
                }
            }
            (Pat::Reference(r), Elem::Ref(pl, _)) => {
                let p = &r.pat;
                out.push(parse_quote!(let #p = #pl;))
            }
            (p, Elem::Ref(pl, true)) => out.push(parse_quote!(let #p = &mut #pl;)),
            (p, Elem::Ref(pl, false)) => out.push(parse_quote!(let #p = &#pl;)),
            (p, Elem::Val(v)) => out.push(parse_quote!(let #p = #v;)),
            (p, Elem::Bound(q, e, body)) => {
                self.bindpat(&q, *e, out);
                // izip!-style re-tupling closures: |(a, b)| (a, b, c)
                if let (Pat::Tuple(t), Expr::Tuple(bt)) = (p, unparen(&body)) {
                    if t.elems.len() == bt.elems.len() {
                        for (pp, ee) in t.elems.iter().zip(&bt.elems) {
                            match pp {
                                Pat::Reference(r) => {
                                    let q = &r.pat;
                                    out.push(parse_quote!(let #q = *#ee;))
                                }
                                Pat::Wild(_) => {}
                                _ => {
                                    if pp.to_token_stream().to_string() != ee.to_token_stream().to_string() {
                                        out.push(parse_quote!(let #pp = #ee;))
                                    }
                                }
                            }
                        }
                        return;
                    }
                }
                out.push(parse_quote!(let #p = #body;))
            }
            (p, e @ Elem::Tuple(_)) => {
                let v = Self::as_expr(e);
                out.push(parse_quote!(let #p = #v;))
            }
        }
    }
    fn as_expr(e: Elem) -> Expr {
        match e {
            Elem::Tuple(es) => {
                let es = es.into_iter().map(Self::as_expr);
                parse_quote!((#(#es),*))
            }
            Elem::Ref(p, true) => parse_quote!(&mut #p),
            Elem::Ref(p, false) => parse_quote!(&#p),
            Elem::Val(v) => v,
            Elem::Bound(p, e, b) => {
                let e = Self::as_expr(*e);
                parse_quote!({ let #p = #e; #b })
            }
        }
    }
    /// the loop over `it`; `body` gets the element statements prepended
    fn mk_loop(&mut self, mut it: It, pat: &Pat, pre: Vec<Stmt>, body: Vec<Stmt>, post: Option<Expr>, by_range: bool) -> Expr {
        let k = self.loops;
        self.loops += 1;
        let (i, n) = (format_ident!("__i{}", k), format_ident!("__n{}", k));
        let mut stmts: Vec<Stmt> = Vec::new();
        let mut ctr = 0;
        self.bind(&mut it, k, &mut ctr, &mut stmts);
        stmts.extend(pre);
        let lit = proc_macro2::Literal::usize_unsuffixed(k);
        let mut inner: Vec<Stmt> = Vec::new();
        let cur = format_ident!("__c{}", k);
        let ie: Expr = parse_quote!(#cur);
        if by_range {
            if let It::Range { lo, hi } = &it {
                stmts.push(parse_quote!(let #n = #hi;));
                stmts.push(parse_quote!(let mut #i = #lo;));
                if !matches!(pat, Pat::Wild(_)) {
                    inner.push(parse_quote!(let #pat = #i;));
                }
                inner.push(parse_quote!(#i += 1;));
            }
        } else {
            let l = match self.len(&it) {
                Some(l) => l,
                None => {
                    self.errors.push("unbounded iterator".into());
                    parse_quote!(0)
                }
            };
            stmts.push(parse_quote!(let #n: usize = #l;));
            stmts.push(parse_quote!(let mut #i: usize = 0;));
            inner.push(parse_quote!(let #cur: usize = #i;));
            inner.push(parse_quote!(#i += 1;));
            let e = self.elem(&it, &ie);
            self.bindpat(pat, e, &mut inner);
        }
        inner.extend(body);
        let mut fresh = Vec::new();
        for s in &inner {
            // `let p = &mut place[..]` bound by this loop: p is a mutable reference in the body
            if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(LocalInit { expr, .. }), .. }) = s {
                if matches!(&**expr, Expr::Reference(r) if r.mutability.is_some()) && self.mutrefs.insert(p.ident.to_string()) {
                    fresh.push(p.ident.to_string());
                }
            }
        }
        let mut blk: Block = parse_quote!({ #(#inner)* });
        self.visit_block_mut(&mut blk);
        for f in fresh {
            self.mutrefs.remove(&f);
        }
        let inner = blk.stmts;
        let out: Expr = match post {
            Some(p) => parse_quote!({ #(#stmts)* __VX_BEFORE!(#lit); while #i < #n { __VX_LOOP!(#lit); #(#inner)* __VX_TAIL!(#lit); } __VX_AFTER!(#lit); #p }),
            None => parse_quote!({ #(#stmts)* __VX_BEFORE!(#lit); while #i < #n { __VX_LOOP!(#lit); #(#inner)* __VX_TAIL!(#lit); } __VX_AFTER!(#lit); }),
        };
        out
    }
    fn closure_body(c: &ExprClosure, n: usize) -> Option<(Vec<Pat>, Expr)> {
        if c.inputs.len() != n {
            return None;
        }
        let mut h = HasContinue(false);
        syn::visit::Visit::visit_expr(&mut h, &c.body);
        if h.0 {
            return None;
        }
        Some((c.inputs.iter().cloned().collect(), (*c.body).clone()))
    }
    fn stmt_of(e: Expr) -> Vec<Stmt> {
        match e {
            Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => {
                let mut v = b.block.stmts;
                if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() {
                    *semi = Some(token::Semi(Span::call_site()));
                }
                vec![Stmt::Expr(Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: v } }), Some(Default::default()))]
            }
            e => vec![Stmt::Expr(e, Some(Default::default()))],
        }
    }
    fn is_array(&self, e: &Expr) -> bool {
        match unparen(e) {
            Expr::Repeat(_) => true,
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.arrays.contains(&i.to_string())),
            Expr::MethodCall(m) => m.method == "map" && self.is_array(&m.receiver),
            _ => false,
        }
    }
    fn sink(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let clos = |i: usize| match m.args.iter().nth(i).map(unparen) {
            Some(Expr::Closure(c)) => Some(c.clone()),
            Some(f @ Expr::Path(_)) => {
                let c: ExprClosure = parse_quote!(|__x| #f(__x));
                Some(c)
            }
            _ => None,
        };
        match name.as_str() {
            "for_each" => {
                let (p, b) = Self::closure_body(&clos(0)?, 1)?;
                let it = self.chain(&m.receiver)?;
                self.rules.insert("for_each".into());
                Some(self.mk_loop(it, &p[0], vec![], Self::stmt_of(b), None, false))
            }
            "fold" | "rfold" => {
                let (p, b) = Self::closure_body(&clos(1)?, 2)?;
                let mut it = self.chain(&m.receiver)?;
                if name == "rfold" {
                    it = It::Rev(Box::new(it));
                }
                self.rules.insert(name.clone());
                let acc = format_ident!("__acc{}", self.loops);
                let init = &m.args[0];
                let ap = &p[0];
                let pre: Vec<Stmt> = vec![parse_quote!(let mut #acc = #init;)];
                let body: Vec<Stmt> = vec![parse_quote!(let #ap = #acc;), parse_quote!(#acc = #b;)];
                Some(self.mk_loop(it, &p[1], pre, body, Some(parse_quote!(#acc)), false))
            }
            "collect" => {
                let it = self.chain(&m.receiver)?;
                self.rules.insert("collect".into());
                let acc = format_ident!("__acc{}", self.loops);
                let pre: Vec<Stmt> = vec![parse_quote!(let mut #acc = Vec::new();)];
                let body: Vec<Stmt> = vec![parse_quote!(#acc.push(__e);)];
                Some(self.mk_loop(it, &parse_quote!(__e), pre, body, Some(parse_quote!(#acc)), false))
            }
            // rule array-map: `A.map(f)` on an array collects f over its elements in order
            "map" if self.is_array(&m.receiver) => {
                let c = clos(0)?;
                let it = It::Map(Box::new(It::Slice { place: m.receiver.as_ref().clone(), mt: false, val: true }), c);
                self.rules.insert("array-map".into());
                let acc = format_ident!("__acc{}", self.loops);
                let pre: Vec<Stmt> = vec![parse_quote!(let mut #acc = Vec::new();)];
                let body: Vec<Stmt> = vec![parse_quote!(#acc.push(__e);)];
                Some(self.mk_loop(it, &parse_quote!(__e), pre, body, Some(parse_quote!(#acc)), false))
            }
            "all" | "any" => {
                let (p, b) = Self::closure_body(&clos(0)?, 1)?;
                let it = self.chain(&m.receiver)?;
                self.rules.insert(name.clone());
                let acc = format_ident!("__acc{}", self.loops);
                let all = name == "all";
                let pre: Vec<Stmt> = vec![parse_quote!(let mut #acc = #all;)];
                let body: Vec<Stmt> = if all { vec![parse_quote!(if !(#b) { #acc = false; break; })] } else { vec![parse_quote!(if #b { #acc = true; break; })] };
                Some(self.mk_loop(it, &p[0], pre, body, Some(parse_quote!(#acc)), false))
            }
            _ => None,
        }
    }
}
impl Desugar {
    /// rule slice-match: a match on a slice place by length patterns becomes an if chain
    fn slice_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        let pl = unparen(&m.expr);
        if !is_place(pl) {
            return None;
        }
        if !m.arms.iter().any(|a| matches!(&a.pat, Pat::Slice(_)) || matches!(&a.pat, Pat::Reference(r) if matches!(&*r.pat, Pat::Slice(_)))) {
            return None;
        }
        let mut out: Expr = parse_quote!(vpanic());
        for a in m.arms.iter().rev() {
            if a.guard.is_some() {
                return None;
            }
            let body = &a.body;
            let (sl, byval) = match &a.pat {
                Pat::Slice(s) => (s, false),
                Pat::Reference(r) => match &*r.pat {
                    Pat::Slice(s) => (s, true),
                    _ => return None,
                },
                Pat::Wild(_) => {
                    out = parse_quote!({ #body });
                    continue;
                }
                _ => return None,
            };
            let n = sl.elems.len();
            let rest = sl.elems.iter().position(|p| match p {
                Pat::Rest(_) => true,
                Pat::Ident(i) => matches!(&i.subpat, Some((_, q)) if matches!(&**q, Pat::Rest(_))),
                _ => false,
            });
            let fixed = if rest.is_some() { n - 1 } else { n };
            let lf = proc_macro2::Literal::usize_unsuffixed(fixed);
            let mut st: Vec<Stmt> = Vec::new();
            for (i, p) in sl.elems.iter().enumerate() {
                if Some(i) == rest {
                    if let Pat::Ident(id) = p {
                        let nm = &id.ident;
                        let lo = proc_macro2::Literal::usize_unsuffixed(i);
                        let hi = proc_macro2::Literal::usize_unsuffixed(n - 1 - i);
                        st.push(parse_quote!(let #nm = slice_subrange(#pl, #lo, #pl.len() - #hi);));
                    }
                    continue;
                }
                let ix: Expr = if rest.map_or(true, |r| i < r) {
                    let l = proc_macro2::Literal::usize_unsuffixed(i);
                    parse_quote!(#l)
                } else {
                    let l = proc_macro2::Literal::usize_unsuffixed(n - i);
                    parse_quote!(#pl.len() - #l)
                };
                if matches!(p, Pat::Wild(_)) {
                    continue;
                }
                if byval {
                    st.push(parse_quote!(let #p = #pl[#ix];));
                } else {
                    st.push(parse_quote!(let #p = &#pl[#ix];));
                }
            }
            let cond: Expr = if rest.is_some() { parse_quote!(#pl.len() >= #lf) } else { parse_quote!(#pl.len() == #lf) };
            out = parse_quote!(if #cond { #(#st)* #body } else { #out });
        }
        self.rules.insert("slice-match".into());
        Some(out)
    }
}
impl Desugar {
    /// rule iter-cursor: `let mut it = v.iter_mut(); *it.next().unwrap() = e; .. for p in it { B }`
    /// => an index into v (an index past the end panics as the `unwrap` of `None` does)
    fn iter_cursor(&mut self, b: &mut Block) {
        for k in 0..b.stmts.len() {
            let (name, recv) = match &b.stmts[k] {
                Stmt::Local(Local { pat: Pat::Ident(p), init: Some(LocalInit { expr, diverge: None, .. }), .. }) if p.mutability.is_some() => match unparen(expr) {
                    Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() && matches!(unparen(&m.receiver), Expr::Path(q) if q.path.get_ident().is_some()) => (p.ident.clone(), (*m.receiver).clone()),
                    _ => continue,
                },
                _ => continue,
            };
            let n = name.to_string();
            let mut out: Vec<Stmt> = Vec::new();
            let mut ok = true;
            for s in &b.stmts[k + 1..] {
                let t = crate::squash(&s.to_token_stream().to_string());
                let uses = s.to_token_stream().into_iter().any(|x| mentions(&x, &n));
                match s {
                    Stmt::Expr(Expr::Assign(a), Some(_)) if uses && t.starts_with(&format!("*{n}.next().unwrap()=")) && !a.right.to_token_stream().into_iter().any(|x| mentions(&x, &n)) => {
                        let r = &a.right;
                        out.push(parse_quote!(#recv[#name] = #r;));
                        out.push(parse_quote!(#name += 1;));
                    }
                    Stmt::Expr(Expr::ForLoop(f), semi) if uses && matches!(unparen(&f.expr), Expr::Path(q) if q.path.is_ident(&name)) && !f.body.to_token_stream().into_iter().any(|x| mentions(&x, &n)) => {
                        let mut f = f.clone();
                        f.expr = parse_quote!(#recv[#name..].iter_mut());
                        out.push(Stmt::Expr(Expr::ForLoop(f), *semi));
                    }
                    s if uses => { let _ = s; ok = false; break; }
                    s => out.push(s.clone()),
                }
            }
            if ok {
                self.rules.insert("iter-cursor".into());
                b.stmts.truncate(k);
                b.stmts.push(parse_quote!(let mut #name: usize = 0;));
                b.stmts.extend(out);
                return;
            }
        }
    }
}
fn mentions(t: &proc_macro2::TokenTree, n: &str) -> bool {
    match t {
        proc_macro2::TokenTree::Ident(i) => i == n,
        proc_macro2::TokenTree::Group(g) => g.stream().into_iter().any(|x| mentions(&x, n)),
        _ => false,
    }
}
impl VisitMut for Desugar {
    /// the halves of `split_at_mut` are mutable slices
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let (Pat::Tuple(t), Some(LocalInit { expr, .. })) = (&l.pat, &l.init) {
            if matches!(unparen(expr), Expr::MethodCall(m) if m.method == "split_at_mut") {
                for p in &t.elems {
                    if let Pat::Ident(i) = p {
                        self.mutrefs.insert(i.ident.to_string());
                    }
                }
            }
        }
        if let (Pat::Ident(i), Some(LocalInit { expr, .. })) = (&l.pat, &l.init) {
            if self.is_array(expr) {
                self.arrays.insert(i.ident.to_string());
            } else {
                self.arrays.remove(&i.ident.to_string());
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    /// rule destruct-assign: `(p, q) = e;` => `let __d = e; p = __d.0; q = __d.1;`
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.iter_cursor(b);
        let mut out = Vec::new();
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Expr(Expr::Assign(a), Some(_)) = &s {
                if let Expr::Tuple(t) = unparen(&a.left) {
                    let v = format_ident!("__d{}", self.depth);
                    self.depth += 1;
                    let r = &a.right;
                    out.push(parse_quote!(let #v = #r;));
                    for (i, p) in t.elems.iter().enumerate() {
                        if matches!(p, Expr::Infer(_)) {
                            continue;
                        }
                        let ix = Index::from(i);
                        out.push(parse_quote!(#p = #v.#ix;));
                    }
                    self.rules.insert("destruct-assign".into());
                    continue;
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Match(m) = e {
            let m2 = m.clone();
            if let Some(n) = self.slice_match(&m2) {
                *e = n;
            }
        }
        match e {
            Expr::MethodCall(m) => {
                let m2 = m.clone();
                if let Some(n) = self.sink(&m2) {
                    *e = n;
                    return;
                }
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                let stmts = f.body.stmts.clone();
                match unparen(&f.expr) {
                    Expr::Range(r) if r.start.is_some() && r.end.is_some() && matches!(r.limits, RangeLimits::HalfOpen(_)) => {
                        self.rules.insert("for-range".into());
                        let it = It::Range { lo: (**r.start.as_ref().unwrap()).clone(), hi: (**r.end.as_ref().unwrap()).clone() };
                        *e = self.mk_loop(it, &f.pat, vec![], stmts, None, true);
                        relabel(e, &f.label);
                        return;
                    }
                    x => {
                        if let Some(it) = self.source(x) {
                            self.rules.insert("for-iter".into());
                            *e = self.mk_loop(it, &f.pat, vec![], stmts, None, false);
                            relabel(e, &f.label);
                            return;
                        }
                        self.errors.push(format!("for over {}", f.expr.to_token_stream()));
                    }
                }
            }
            Expr::While(w) => {
                let k = proc_macro2::Literal::usize_unsuffixed(self.loops);
                self.loops += 1;
                visit_mut::visit_expr_mut(self, &mut w.cond);
                visit_mut::visit_block_mut(self, &mut w.body);
                let st = std::mem::take(&mut w.body.stmts);
                w.body = parse_quote!({ __VX_LOOP!(#k); #(#st)* __VX_TAIL!(#k); });
                let w = w.clone();
                *e = parse_quote!({ __VX_BEFORE!(#k); #w __VX_AFTER!(#k); });
                return;
            }
            Expr::Loop(l) => {
                // rule loop-value: `loop { .. break e; .. }` => `{ let __b; loop { .. { __b = e; break } .. } __b }`
                let v = format_ident!("__b{}", self.loops);
                let mut bv = BreakVal { v: &v, k: self.loops, n: 0, label: l.label.as_ref().map(|x| x.name.ident.to_string()), inner: false };
                bv.visit_block_mut(&mut l.body);
                let valued = bv.n > 0;
                let k = proc_macro2::Literal::usize_unsuffixed(self.loops);
                self.loops += 1;
                visit_mut::visit_block_mut(self, &mut l.body);
                let st = std::mem::take(&mut l.body.stmts);
                l.body = parse_quote!({ __VX_LOOP!(#k); #(#st)* __VX_TAIL!(#k); });
                if valued {
                    let l = l.clone();
                    self.rules.insert("loop-value".into());
                    *e = parse_quote!({ let #v; __VX_BEFORE!(#k); #l __VX_AFTER!(#k); #v });
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        let _ = quote!();
    }
}

/// a labelled `for` becomes a `while` with the same label
fn relabel(e: &mut Expr, label: &Option<Label>) {
    if let (Expr::Block(b), Some(_)) = (e, label) {
        for s in b.block.stmts.iter_mut() {
            if let Stmt::Expr(Expr::While(w), _) = s {
                w.label = label.clone();
            }
        }
    }
}

struct BreakVal<'a> { v: &'a Ident, k: usize, n: usize, label: Option<String>, inner: bool }
impl<'a> VisitMut for BreakVal<'a> {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)) {
            let o = std::mem::replace(&mut self.inner, true);
            visit_mut::visit_expr_mut(self, e);
            self.inner = o;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Break(b) = e {
            let mine = match &b.label { None => !self.inner, Some(l) => Some(l.ident.to_string()) == self.label };
            if let (true, Some(x)) = (mine, b.expr.take()) {
                let (v, b, k) = (self.v, b.clone(), proc_macro2::Literal::usize_unsuffixed(self.k));
                self.n += 1;
                *e = parse_quote!({ #v = #x; __VX_BRK!(#k); #b });
            }
        }
    }
}

/// the proof hints at the end of a loop's body are wanted before each `continue` of that loop as well
#[derive(Default)]
pub struct ContTail { stack: Vec<(usize, Option<String>)> }
impl ContTail {
    fn enter(&mut self, label: &Option<Label>, body: &mut Block) {
        let k = match body.stmts.first() {
            Some(Stmt::Macro(m)) if m.mac.path.is_ident("__VX_LOOP") => m.mac.tokens.to_string().trim().parse::<usize>().unwrap_or(usize::MAX),
            _ => usize::MAX,
        };
        self.stack.push((k, label.as_ref().map(|l| l.name.ident.to_string())));
        self.visit_block_mut(body);
        self.stack.pop();
    }
}
impl VisitMut for ContTail {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => { let l = w.label.clone(); self.enter(&l, &mut w.body); return; }
            Expr::Loop(w) => { let l = w.label.clone(); self.enter(&l, &mut w.body); return; }
            Expr::Continue(c) => {
                let at = match &c.label {
                    None => self.stack.last(),
                    Some(l) => self.stack.iter().rev().find(|x| x.1.as_deref() == Some(&l.ident.to_string())),
                };
                if let Some((k, _)) = at.filter(|x| x.0 != usize::MAX) {
                    let k = proc_macro2::Literal::usize_unsuffixed(*k);
                    let c = c.clone();
                    *e = parse_quote!({ __VX_TAIL!(#k); #c });
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
