//! vx: mechanical extraction of functions from macro-expanded Rust source for the verifier.
//! stdin: JSON request; stdout: JSON answer.  See ../../DESIGN.md ("What the extraction does").
mod desugar;
mod norm;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Read;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub fn squash(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// An impl block, trait block or free function found anywhere in a crate.
enum Found {
    Impl(ItemImpl),
    Trait(ItemTrait),
    Fn(ItemFn),
    Struct(ItemStruct),
    Const(ItemConst),
}

fn walk(items: &[Item], path: &str, out: &mut Vec<(String, Found)>) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    walk(items, &format!("{path}::{}", m.ident), out)
                }
            }
            Item::Impl(i) => out.push((path.to_string(), Found::Impl(i.clone()))),
            Item::Trait(i) => out.push((path.to_string(), Found::Trait(i.clone()))),
            Item::Fn(i) => out.push((path.to_string(), Found::Fn(i.clone()))),
            Item::Struct(i) => out.push((path.to_string(), Found::Struct(i.clone()))),
            Item::Const(i) => {
                if let Expr::Block(b) = &*i.expr {
                    let v: Vec<Item> = b
                        .block
                        .stmts
                        .iter()
                        .filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None })
                        .collect();
                    walk(&v, path, out);
                }
                out.push((path.to_string(), Found::Const(i.clone())))
            }
            _ => {}
        }
    }
}

fn header_of(i: &ItemImpl, subst: &HashMap<String, Type>) -> String {
    let mut i = i.clone();
    norm::Subst { map: subst, self_ty: None }.visit_item_impl_mut(&mut i);
    let st = (*i.self_ty).clone();
    norm::PathStrip.visit_item_impl_mut(&mut i);
    let mut st2 = st.clone();
    norm::PathStrip.visit_type_mut(&mut st2);
    match &mut i.trait_ {
        Some((_, p, _)) => {
            norm::Subst { map: &HashMap::new(), self_ty: Some(&st2) }.visit_path_mut(p);
            squash(&format!("{} for {}", p.to_token_stream(), st2.to_token_stream())).replace("for", " for ")
        }
        None => squash(&st2.to_token_stream().to_string()),
    }
}

fn norm_header(h: &str) -> String {
    if !h.contains(" for ") { return squash(h); }
    squash(h).replace("for", " for ")
}

struct Calls(BTreeSet<String>, usize, bool);
impl<'a> Visit<'a> for Calls {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.0.insert(format!(".{}", m.method));
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, m: &'a ExprCall) {
        if let Expr::Path(p) = &*m.func {
            self.0.insert(squash(&p.to_token_stream().to_string()));
        }
        visit::visit_expr_call(self, m);
    }
    fn visit_expr_return(&mut self, m: &'a ExprReturn) {
        self.2 = true;
        visit::visit_expr_return(self, m);
    }
    fn visit_expr_try(&mut self, m: &'a ExprTry) {
        self.2 = true;
        visit::visit_expr_try(self, m);
    }
    fn visit_expr_closure(&mut self, _m: &'a ExprClosure) {}
}

/// letmuts in order of declaration
struct Muts(Vec<String>, Vec<String>);
impl<'a> Visit<'a> for Muts {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        if p.mutability.is_some() {
            self.0.push(p.ident.to_string());
        } else {
            self.1.push(p.ident.to_string());
        }
    }
}

fn fn_json(sig: &Signature, block: &Block, line: (usize, usize), prefix: &str) -> Value {
    let mut block = block.clone();
    let mut sig = sig.clone();
    norm::Clean.visit_block_mut(&mut block);
    norm::PathStrip.visit_block_mut(&mut block);
    norm::PathStrip.visit_signature_mut(&mut sig);
    // rule asref-slice: a parameter `x: impl AsRef<[X]>` is passed as `&[X]`, `x.as_ref()` is `x`
    let mut asref: BTreeSet<String> = BTreeSet::new();
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let Type::ImplTrait(it) = &*t.ty {
                let s = squash(&it.bounds.to_token_stream().to_string());
                for (pre, mu) in [("AsRef<[", false), ("AsMut<[", true)] {
                    if s.starts_with(pre) && s.ends_with("]>") {
                        let el: Type = parse_str(&s[pre.len()..s.len() - 2]).expect("element type");
                        if let Pat::Ident(p) = &mut *t.pat { asref.insert(p.ident.to_string()); p.mutability = None; }
                        t.ty = if mu { parse_quote!(&mut [#el]) } else { parse_quote!(&[#el]) };
                        break;
                    }
                }
            }
        }
    }
    if !asref.is_empty() {
        norm::AsRefStrip { names: &asref }.visit_block_mut(&mut block);
    }
    let inlined = norm::inline_closures(&mut block) | norm::chunk_locals(&mut block);
    // rule pattern-param: a destructuring parameter is bound by a `let` at the top of the body
    let mut patparam = false;
    for (ai, a) in sig.inputs.iter_mut().enumerate().collect::<Vec<_>>().into_iter().rev() {
        if let FnArg::Typed(t) = a {
            if matches!(&*t.pat, Pat::Tuple(_) | Pat::TupleStruct(_) | Pat::Reference(_) | Pat::Struct(_)) {
                let id = Ident::new(&format!("__p{ai}"), proc_macro2::Span::call_site());
                let pat = (*t.pat).clone();
                block.stmts.insert(0, parse_quote!(let #pat = #id;));
                *t.pat = parse_quote!(#id);
                patparam = true;
            }
        }
    }
    // hoist inner items (also those of nested blocks; a name used twice gets a numeric suffix)
    let mut hz = Hoist { prefix, fns: vec![], consts: vec![], used: HashMap::new(), scope: vec![], cname: vec![] };
    hz.visit_block_mut(&mut block);
    let (inner, consts, names) = (hz.fns, hz.consts, hz.cname.into_iter().collect::<HashMap<_, _>>());
    let mut err: Vec<String> = Vec::new();
    let mut d = desugar::Desugar::default();
    for a in sig.inputs.iter() {
        match a {
            FnArg::Receiver(r) if r.reference.is_some() && r.mutability.is_some() => { d.mutrefs.insert("self".into()); }
            FnArg::Typed(t) => {
                if let (Pat::Ident(p), Type::Reference(r)) = (&*t.pat, &*t.ty) {
                    if r.mutability.is_some() { d.mutrefs.insert(p.ident.to_string()); }
                }
                if let (Pat::Ident(p), Type::Path(q)) = (&*t.pat, &*t.ty) {
                    if q.path.segments.last().map_or(false, |s| s.ident == "Polynomial" || s.ident == "NTTPolynomial") { d.owned.insert(p.ident.to_string()); }
                }
            }
            _ => {}
        }
    }
    if !asref.is_empty() { d.rules.insert("asref-slice".into()); }
    if inlined { d.rules.insert("inline-closure".into()); }
    if patparam { d.rules.insert("pattern-param".into()); }
    for a in sig.inputs.iter() {
        if let FnArg::Typed(t) = a {
            if let (Pat::Ident(p), Type::Array(_)) = (&*t.pat, &*t.ty) { d.arrays.insert(p.ident.to_string()); }
        }
    }
    d.visit_block_mut(&mut block);
    desugar::ContTail::default().visit_block_mut(&mut block);
    err.extend(d.errors.clone());
    let mut calls = Calls(BTreeSet::new(), 0, false);
    calls.visit_block(&block);
    let mut mu = Muts(vec![], vec![]);
    mu.visit_block(&block);
    let mut params = Vec::new();
    for (ai, a) in sig.inputs.iter().enumerate() {
        match a {
            FnArg::Receiver(r) => params.push(json!({"name":"self","recv": if r.reference.is_some() { if r.mutability.is_some() { "& mut self" } else { "& self" } } else if r.mutability.is_some() { "mut self" } else { "self" },
                "mutref": r.reference.is_some() && r.mutability.is_some(), "ref": r.reference.is_some(), "ty":"Self"})),
            FnArg::Typed(t) => {
                let (name, mu) = match &*t.pat {
                    Pat::Ident(p) => (p.ident.to_string(), p.mutability.is_some()),
                    Pat::Wild(_) => (format!("__w{ai}"), false),
                    p => (format!("?{}", p.to_token_stream()), false),
                };
                let (mr, r) = match &*t.ty {
                    Type::Reference(r) => (r.mutability.is_some(), true),
                    _ => (false, false),
                };
                params.push(json!({"name":name,"mut":mu,"ty":t.ty.to_token_stream().to_string(),"mutref":mr,"ref":r}))
            }
        }
    }
    let ret = match &sig.output {
        ReturnType::Default => Value::Null,
        ReturnType::Type(_, t) => json!(t.to_token_stream().to_string()),
    };
    let inner_json: Vec<Value> = inner
        .iter()
        .map(|(nm, f)| {
            let mut v = fn_json(&f.sig, &f.block, line, &format!("{prefix}{nm}_"));
            v["name"] = json!(nm);
            v
        })
        .collect();
    let consts_json: Vec<Value> = consts
        .iter()
        .map(|c| {
            let mut c = c.clone();
            let mut ren = norm::Rename { map: &names };
            ren.visit_item_const_mut(&mut c);
            norm::PathStrip.visit_item_const_mut(&mut c);
            if let Some(n) = names.get(&c.ident.to_string()) { c.ident = Ident::new(n, c.ident.span()); }
            json!(c.to_token_stream().to_string())
        })
        .collect();
    json!({
        "name": sig.ident.to_string(),
        "params": params, "ret": ret,
        "generics": sig.generics.params.to_token_stream().to_string(),
        "body": block.to_token_stream().to_string(),
        "loops": d.loops, "calls": calls.0.into_iter().collect::<Vec<_>>(),
        "has_return": calls.2,
        "muts": mu.0, "lets": mu.1,
        "errors": err, "inner": inner_json, "consts": consts_json,
        "rules": d.rules.into_iter().collect::<Vec<_>>(),
        "line": [line.0, line.1],
    })
}

/// takes the items out of a body, renaming their uses in the block (and nested blocks) that declares them
struct Hoist<'a> {
    prefix: &'a str,
    fns: Vec<(String, ItemFn)>,
    consts: Vec<ItemConst>,
    used: HashMap<String, usize>,
    scope: Vec<HashMap<String, String>>,
    cname: Vec<(String, String)>,
}
impl<'a> VisitMut for Hoist<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut map = HashMap::new();
        let mut fns = Vec::new();
        let mut stmts = Vec::new();
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Fn(f)) => {
                    let n = f.sig.ident.to_string();
                    let c = self.used.entry(n.clone()).or_insert(0);
                    *c += 1;
                    let nm = if *c == 1 { n.clone() } else { format!("{n}{c}") };
                    map.insert(n, format!("{}{nm}", self.prefix));
                    fns.push((nm, f));
                }
                Stmt::Item(Item::Const(c)) => {
                    let n = c.ident.to_string();
                    map.insert(n.clone(), format!("{}{n}", self.prefix));
                    self.cname.push((n.clone(), format!("{}{n}", self.prefix)));
                    self.consts.push(c)
                }
                Stmt::Item(Item::Use(_)) => {}
                s => stmts.push(s),
            }
        }
        b.stmts = stmts;
        if !map.is_empty() {
            let mut ren = norm::Rename { map: &map };
            ren.visit_block_mut(b);
            for (_, f) in fns.iter_mut() { ren.visit_item_fn_mut(f); }
        }
        self.scope.push(map);
        visit_mut::visit_block_mut(self, b);
        for (nm, mut f) in fns {
            for m in self.scope.iter().rev().skip(1) {
                norm::Rename { map: m }.visit_item_fn_mut(&mut f);
            }
            self.fns.push((nm, f));
        }
        self.scope.pop();
    }
}

fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let req: Value = serde_json::from_str(&s).expect("request");
    let mut crates: BTreeMap<String, Vec<(String, Found)>> = BTreeMap::new();
    for (name, path) in req["files"].as_object().unwrap() {
        let src = std::fs::read_to_string(path.as_str().unwrap()).expect("expanded source");
        let f = match syn::parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                println!("{}", json!({"error": format!("parse {name}: {e}")}));
                return;
            }
        };
        let mut v = Vec::new();
        walk(&f.items, name, &mut v);
        crates.insert(name.clone(), v);
    }
    let mut out = Vec::new();
    for r in req["reqs"].as_array().unwrap() {
        let id = r["id"].as_str().unwrap();
        let kr = r["crate"].as_str().unwrap();
        let header = norm_header(r["header"].as_str().unwrap_or(""));
        let fname = r["fn"].as_str().unwrap_or("");
        let modp = r["mod"].as_str().unwrap_or("");
        let mut subst: HashMap<String, Type> = HashMap::new();
        if let Some(o) = r["subst"].as_object() {
            for (k, v) in o {
                subst.insert(k.clone(), parse_str(v.as_str().unwrap()).expect("subst type"));
            }
        }
        let prefix = r["prefix"].as_str().unwrap_or("");
        let mut hits: Vec<Value> = Vec::new();
        for (path, f) in &crates[kr] {
            if !modp.is_empty() && !path.ends_with(modp) {
                continue;
            }
            match f {
                Found::Impl(i) => {
                    if fname.is_empty() || header.is_empty() || header.starts_with("trait:") { continue; }
                    let gens: Vec<String> = i.generics.type_params().map(|t| t.ident.to_string()).collect();
                    // substitution applies only to this impl's own generics
                    let sub: HashMap<String, Type> =
                        subst.iter().filter(|(k, _)| gens.contains(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
                    if header_of(i, &sub) != header {
                        continue;
                    }
                    for it in &i.items {
                        if let ImplItem::Fn(m) = it {
                            if m.sig.ident != fname {
                                continue;
                            }
                            let mut m = m.clone();
                            norm::Subst { map: &subst, self_ty: None }.visit_impl_item_fn_mut(&mut m);
                            let sp = (m.sig.ident.span().start().line, m.block.brace_token.span.close().end().line);
                            let mut v = fn_json(&m.sig, &m.block, sp, prefix);
                            v["mod"] = json!(path);
                            let mut assoc = serde_json::Map::new();
                            for it in &i.items {
                                if let ImplItem::Type(t) = it {
                                    let mut ty = t.ty.clone();
                                    norm::Subst { map: &sub, self_ty: None }.visit_type_mut(&mut ty);
                                    norm::PathStrip.visit_type_mut(&mut ty);
                                    assoc.insert(t.ident.to_string(), json!(ty.to_token_stream().to_string()));
                                }
                            }
                            v["assoc"] = Value::Object(assoc);
                            hits.push(v);
                        }
                    }
                }
                Found::Trait(t) if header == format!("traitdef:{}", t.ident) => {
                    let mut t = t.clone();
                    norm::Clean.visit_item_trait_mut(&mut t);
                    norm::PathStrip.visit_item_trait_mut(&mut t);
                    let gens: Vec<String> = t.generics.type_params().map(|g| {
                        let d = g.default.as_ref().map(|d| format!(" = {}", d.to_token_stream())).unwrap_or_default();
                        format!("{}{}", g.ident, d) }).collect();
                    let assoc: Vec<String> = t.items.iter().filter_map(|i| if let TraitItem::Type(t) = i { Some(t.ident.to_string()) } else { None }).collect();
                    let mut ms = serde_json::Map::new();
                    for it in &t.items {
                        if let TraitItem::Fn(m) = it {
                            let mut v = fn_json(&m.sig, &parse_quote!({}), (0, 0), "");
                            v["default"] = json!(m.default.is_some());
                            ms.insert(m.sig.ident.to_string(), v);
                        }
                    }
                    hits.push(json!({"gens": gens, "assoc": assoc, "methods": ms, "mod": path}));
                }
                Found::Trait(t) => {
                    if header != format!("trait:{}", t.ident) { continue; }
                    for it in &t.items {
                        if let TraitItem::Fn(m) = it {
                            if m.sig.ident != fname { continue; }
                            if let Some(b) = &m.default {
                                let mut sig = m.sig.clone();
                                let mut b = b.clone();
                                let st = subst.get("Self").cloned();
                                norm::Subst { map: &subst, self_ty: st.as_ref() }.visit_signature_mut(&mut sig);
                                norm::Subst { map: &subst, self_ty: st.as_ref() }.visit_block_mut(&mut b);
                                let sp = (m.sig.ident.span().start().line, b.brace_token.span.close().end().line);
                                let mut v = fn_json(&sig, &b, sp, prefix);
                                v["mod"] = json!(path);
                                hits.push(v);
                            }
                        }
                    }
                }
                Found::Fn(g) => {
                    if !header.is_empty() || g.sig.ident != fname { continue; }
                    let mut g = g.clone();
                    norm::Subst { map: &subst, self_ty: None }.visit_item_fn_mut(&mut g);
                    let sp = (g.sig.ident.span().start().line, g.block.brace_token.span.close().end().line);
                    let mut v = fn_json(&g.sig, &g.block, sp, prefix);
                    v["mod"] = json!(path);
                    hits.push(v);
                }
                Found::Struct(st) => {
                    if header != format!("struct:{}", st.ident) { continue; }
                    let fields: Vec<Value> = st.fields.iter().enumerate().map(|(i, f)| {
                        let mut f = f.clone();
                        norm::Subst { map: &subst, self_ty: None }.visit_field_mut(&mut f);
                        norm::PathStrip.visit_field_mut(&mut f);
                        json!([f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), f.ty.to_token_stream().to_string()])
                    }).collect();
                    hits.push(json!({"fields": fields, "tuple": matches!(st.fields, Fields::Unnamed(_)), "mod": path}));
                }
                Found::Const(_) => {}
            }
        }
        if let Some(n) = r["const"].as_str() {
            // associated const of an impl with the given header
            for (path, f) in &crates[kr] {
                if let Found::Impl(i) = f {
                    if header_of(i, &HashMap::new()) != header { continue; }
                    for it in &i.items {
                        if let ImplItem::Const(c) = it {
                            if c.ident == n {
                                hits.push(json!({"expr": c.expr.to_token_stream().to_string(), "ty": c.ty.to_token_stream().to_string(), "mod": path}));
                            }
                        }
                    }
                }
                if let Found::Const(c) = f {
                    if header.is_empty() && c.ident == n && (modp.is_empty() || path.ends_with(modp)) {
                        hits.push(json!({"expr": c.expr.to_token_stream().to_string(), "ty": c.ty.to_token_stream().to_string(), "mod": path}));
                    }
                }
            }
        }
        out.push(json!({"id": id, "hits": hits}));
    }
    println!("{}", json!({"answers": out}));
}
