//! Changes made to extracted code. Each keeps the meaning; all are listed in DESIGN.md.
use crate::vc::Directive;
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};

/// Path rewriting, let-chain desugaring, method renames, loop counting.
#[derive(Default)]
pub struct Rw {
    pub resmap: bool,
    pub optmap: bool,
    pub loops: usize,
    pub calls: BTreeSet<String>,
}
impl Rw {
    pub fn visit_expr(&mut self, e: &mut syn::Expr) {
        VisitMut::visit_expr_mut(self, e)
    }
}

/// return or ? in the arguments: they mean something else outside a closure
fn leaves(n: &syn::ExprMethodCall) -> bool {
    let t = n.args.to_token_stream().to_string();
    t.contains('?') || t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "return")
}
fn marker(n: usize) -> syn::Stmt {
    let s = proc_macro2::Literal::usize_unsuffixed(n);
    syn::parse_quote!(__vloop!(#s);)
}

fn size_of(t: &str) -> Option<usize> {
    Some(match t {
        "u8" | "i8" | "bool" => 1,
        "u16" | "i16" => 2,
        "u32" | "i32" | "f32" => 4,
        "u64" | "i64" | "f64" => 8,
        "u128" | "i128" => 16,
        _ => return None,
    })
}

const RENAME: &[(&str, &str)] = &[
    ("to_le_bytes", "v_to_le_bytes"),
    ("from_le_bytes", "v_from_le_bytes"),
    ("try_into", "v_try_into"),
    ("saturating_sub", "v_saturating_sub"),
    ("saturating_add", "v_saturating_add"),
    ("saturating_mul", "v_saturating_mul"),
    ("is_some_and", "v_is_some_and"),
    ("to_vec", "v_to_vec"),
    ("starts_with", "v_starts_with"),
    ("contains", "v_contains"),
];

/// Verus does not take two traits with a method of the same name on one type: the second gets another name
pub const TRAIT_RENAME: &[(&str, &str, &str)] = &[
    ("TryReadFromBuffered", "try_read", "try_read_buffered"),
    ("TryExtractPayloadFrom", "try_read", "try_extract"),
    ("TryExtractPayloadFromBuffered", "try_read", "try_extract_buffered"),
    ("TryReadPayloadFrom", "try_read", "try_read_payload"),
    ("TryReadPayloadFromBuffered", "try_read", "try_read_payload_buffered"),
    ("ReadBlockFrom", "read", "read_block"),
    ("ReadPayloadFrom", "read", "read_payload"),
    ("ExtractPayloadFrom", "read", "extract"),
    ("PayloadEncodeReferred", "encode", "encode_referred"),
];
pub fn renamed(tr: &str, m: &str) -> Option<&'static str> {
    TRAIT_RENAME.iter().find(|(a, b, _)| *a == tr && *b == m).map(|(_, _, c)| *c)
}

thread_local! {
    /// lengths of the array constants the unit takes from the sources
    pub static ARRAYS: std::cell::RefCell<BTreeMap<String, usize>> = Default::default();
}

impl VisitMut for Rw {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
    /// imports inside a body: the names are in scope
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| !matches!(s, syn::Stmt::Item(syn::Item::Use(_))));
        b.stmts = std::mem::take(&mut b.stmts).into_iter().flat_map(break_value).collect();
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_path_mut(&mut self, e: &mut syn::ExprPath) {
        let n = e.path.segments.len();
        visit_mut::visit_expr_path_mut(self, e);
        if let Some(q) = e.qself.as_mut() {
            q.position = (q.position + e.path.segments.len()).saturating_sub(n);
        }
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        // Trait::method
        let n = p.segments.len();
        if n >= 2 {
            let (t, m) = (p.segments[n - 2].ident.to_string(), p.segments[n - 1].ident.to_string());
            if let Some(x) = renamed(&t, &m) {
                p.segments[n - 1].ident = proc_macro2::Ident::new(x, p.segments[n - 1].ident.span());
            }
        }
        let ids: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let s: Vec<&str> = ids.iter().map(|x| x.as_str()).collect();
        let take = |p: &mut syn::Path, drop: usize, first: &str| {
            let rest: Vec<syn::PathSegment> = p.segments.iter().skip(drop).cloned().collect();
            let id = proc_macro2::Ident::new(first, proc_macro2::Span::call_site());
            let mut np: syn::Path = syn::parse_quote!(#id);
            for r in rest {
                np.segments.push(r);
            }
            *p = np;
        };
        match s.as_slice() {
            ["std", "io", ..] => take(p, 2, "sio"),
            ["Self", "Error"] => take(p, 2, "Error"),
            ["crc32fast", ..] | ["brec", "crc32fast", ..] => {
                let d = if s[0] == "brec" { 2 } else { 1 };
                take(p, d, "crcx")
            }
            ["brec", _, ..] => {
                let rest: Vec<syn::PathSegment> = p.segments.iter().skip(1).cloned().collect();
                let mut np = syn::Path { leading_colon: None, segments: Default::default() };
                for r in rest {
                    np.segments.push(r);
                }
                *p = np;
            }
            _ => {}
        }
        if let Some(l) = p.segments.last_mut() {
            if let Some((_, n)) = RENAME.iter().find(|(a, _)| l.ident == a) {
                l.ident = proc_macro2::Ident::new(n, l.ident.span());
            }
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
        for (i, p) in c.inputs.iter_mut().enumerate() {
            if matches!(p, syn::Pat::Wild(_)) {
                let id = proc_macro2::Ident::new(&format!("_v{i}"), proc_macro2::Span::call_site());
                *p = syn::parse_quote!(#id);
            }
        }
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
        if ADAPTERS.contains(&m.method.to_string().as_str()) {
            rename_iter(&mut m.receiver);
        }
        let is_map = matches!(m.method.to_string().as_str(), "map" | "map_or") && m.args.last().is_some_and(is_predicate);
        if is_map || PREDICATES.contains(&m.method.to_string().as_str()) && m.args.len() == 1 {
            let last = m.args.len() - 1;
            if let Some(x) = spec_closure(&m.args[last]) {
                m.args[last] = x;
            }
        }
        visit_mut::visit_expr_method_call_mut(self, m);
        self.calls.insert(m.method.to_string());
        if let Some((_, n)) = RENAME.iter().find(|(a, _)| m.method == a) {
            m.method = proc_macro2::Ident::new(n, m.method.span());
        }
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        // std::mem::size_of::<T>() of a primitive is its size
        if let syn::Expr::Call(c) = e {
            if let syn::Expr::Path(p) = &*c.func {
                if let Some(l) = p.path.segments.last() {
                    self.calls.insert(l.ident.to_string());
                    if l.ident == "size_of" {
                        if let syn::PathArguments::AngleBracketed(a) = &l.arguments {
                            if let Some(n) = size_of(&a.args.to_token_stream().to_string()) {
                                let n = proc_macro2::Literal::usize_suffixed(n);
                                *e = syn::parse_quote!(#n);
                                return;
                            }
                        }
                    }
                }
            }
        }
        // CONST.len() of an array constant is the length in its type
        if let syn::Expr::MethodCall(m) = e {
            if m.method == "len" {
                if let syn::Expr::Path(p) = &*m.receiver {
                    let n = p.path.get_ident().and_then(|i| ARRAYS.with(|a| a.borrow().get(&i.to_string()).copied()));
                    if let Some(n) = n {
                        let n = proc_macro2::Literal::usize_suffixed(n);
                        *e = syn::parse_quote!(#n);
                        return;
                    }
                }
            }
        }
        // loops get their number on the way in (source order)
        match e {
            syn::Expr::Loop(l) if !matches!(l.body.stmts.first(), Some(syn::Stmt::Macro(m)) if m.mac.path.is_ident("__vloop")) => {
                l.body.stmts.insert(0, marker(self.loops));
                self.loops += 1;
            }
            syn::Expr::While(l) => {
                l.body.stmts.insert(0, marker(self.loops));
                self.loops += 1;
            }
            syn::Expr::ForLoop(l) => {
                l.body.stmts.insert(0, marker(self.loops));
                self.loops += 1;
            }
            _ => {}
        }
        // for (i, x) in it.by_ref().enumerate(): the iterator stays in its place and is asked for its next
        if let syn::Expr::ForLoop(f) = e {
            if let (syn::Expr::MethodCall(en), syn::Pat::Tuple(pt)) = (&*f.expr, &*f.pat) {
                if let (true, syn::Expr::MethodCall(by), 2) = (en.method == "enumerate", &*en.receiver, pt.elems.len()) {
                    if by.method == "by_ref" {
                        let at = syn::Ident::new(&format!("at{}", self.loops - 1), proc_macro2::Span::call_site());
                        let (it, i, x, label) = (&by.receiver, &pt.elems[0], &pt.elems[1], &f.label);
                        let mark = &f.body.stmts[0];
                        let body = &f.body.stmts[1..];
                        *e = syn::parse_quote!({
                            let mut #at: usize = 0;
                            #label loop {
                                #mark
                                let #x = match #it.v_next() { Some(x) => x, None => break };
                                let #i = #at;
                                #at += 1;
                                { #(#body)* }
                            }
                        });
                    }
                }
            }
        }
        if let syn::Expr::ForLoop(f) = e {
            rename_iter(&mut f.expr);
        }
        // X.map(|p| A).unwrap_or(B)  =>  match X { Some(p) => A, None => B }  (:optmap)
        if let (true, syn::Expr::MethodCall(m)) = (self.optmap, &*e) {
            if m.method == "unwrap_or" && m.args.len() == 1 {
                if let syn::Expr::MethodCall(n) = &*m.receiver {
                    if let (true, Some(syn::Expr::Closure(c)), 1) = (n.method == "map" && !leaves(n), n.args.first(), n.args.len()) {
                        let (x, p, a, b) = (&n.receiver, &c.inputs[0], &c.body, &m.args[0]);
                        *e = syn::parse_quote!((match #x { Some(#p) => #a, None => #b }));
                    }
                }
            }
        }
        // X.map(|p| A)  =>  match X { Some(p) => Some(A), None => None }  (:optmap; X not an iterator)
        if let (true, syn::Expr::MethodCall(n)) = (self.optmap, &*e) {
            let it = matches!(&*n.receiver, syn::Expr::MethodCall(r) if r.method == "iter" || r.method == "v_iter");
            if let (true, Some(syn::Expr::Closure(c)), 1) = (n.method == "map" && !it && !leaves(n), n.args.first(), n.args.len()) {
                let (x, p, a) = (&n.receiver, &c.inputs[0], &c.body);
                *e = syn::parse_quote!((match #x { Some(#p) => Some(#a), None => None }));
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // a Result's map with a constructor, or any Result's map where the contract says so (:resmap)
        if let syn::Expr::MethodCall(m) = e {
            if m.method == "map" && m.args.len() == 1 {
                let x = &m.receiver;
                match &m.args[0] {
                    syn::Expr::Path(p) if p.path.to_token_stream().to_string().replace(' ', "") == "ReadStatus::Success" || (self.resmap && ctor(&p.path)) => {
                        *e = syn::parse_quote!((match #x { Ok(v) => Ok(#p(v)), Err(e) => Err(e) }));
                    }
                    syn::Expr::Closure(c) if self.resmap && c.inputs.len() == 1 => {
                        let (p, b) = (&c.inputs[0], &c.body);
                        *e = syn::parse_quote!((match #x { Ok(#p) => Ok(#b), Err(e) => Err(e) }));
                    }
                    _ => {}
                }
            }
        }
        if let syn::Expr::MethodCall(m) = e {
            if m.method == "map_err" && m.args.len() == 1 && self.resmap {
                let x = &m.receiver;
                match &m.args[0] {
                    syn::Expr::Path(p) if ctor(&p.path) => {
                        *e = syn::parse_quote!((match #x { Ok(v) => Ok(v), Err(e) => Err(#p(e)) }));
                    }
                    syn::Expr::Closure(c) if c.inputs.len() == 1 => {
                        let (p, b) = (&c.inputs[0], &c.body);
                        *e = syn::parse_quote!((match #x { Ok(v) => Ok(v), Err(#p) => Err(#b) }));
                    }
                    _ => {}
                }
            }
        }
        if let syn::Expr::If(i) = e {
            if let Some(n) = desugar_chain(i) {
                *e = n;
            }
        }
        // for P in E { B }  =>  { let mut it = E.v_into_iter(); loop { match it.v_next() { Some(P) => { B } None => break } } }
        if let syn::Expr::ForLoop(f) = e {
            let mark = f.body.stmts.remove(0);
            let n = mark.to_token_stream().to_string().chars().filter(|c| c.is_ascii_digit()).collect::<String>();
            let it = proc_macro2::Ident::new(&format!("it{n}"), proc_macro2::Span::call_site());
            let (p, x, b, l) = (&f.pat, &f.expr, &f.body, &f.label);
            // for P in X.iter_mut() { B }  =>  { let mut it = 0; while it < X.len() { let P = &mut X[it]; it += 1; B } }
            if let syn::Expr::MethodCall(m) = &**x {
                if m.method == "iter_mut" && m.args.is_empty() {
                    let v = &m.receiver;
                    *e = syn::parse_quote!({
                        let mut #it: usize = 0;
                        #l loop {
                            #mark
                            if #it >= #v.len() { break; }
                            let #p = &mut #v[#it];
                            #it += 1;
                            #b
                        }
                    });
                    return;
                }
            }
            *e = syn::parse_quote!({
                let mut #it = (#x).v_into_iter();
                #l loop {
                    #mark
                    match #it.v_next() { Some(#p) => #b None => { break; } }
                }
            });
        }
    }
}

/// `let x = loop { .. break e; .. };` is `let x; loop { .. { x = e; break; } .. }`
fn break_value(s: syn::Stmt) -> Vec<syn::Stmt> {
    let syn::Stmt::Local(mut l) = s else { return vec![s] };
    let (syn::Pat::Ident(id), Some(init)) = (&l.pat, &l.init) else { return vec![syn::Stmt::Local(l)] };
    let (syn::Expr::Loop(lp), None) = (&*init.expr, &init.diverge) else { return vec![syn::Stmt::Local(l)] };
    if id.by_ref.is_some() || id.subpat.is_some() || lp.label.is_some() {
        return vec![syn::Stmt::Local(l)];
    }
    struct V(syn::Ident, usize);
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
            match e {
                syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Closure(_) => {}
                syn::Expr::Break(b) if b.label.is_none() && b.expr.is_some() => {
                    let (x, v) = (&self.0, b.expr.take());
                    *e = syn::parse_quote!({ #x = #v; break; });
                    self.1 += 1;
                }
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    let mut v = V(id.ident.clone(), 0);
    let mut lp = lp.clone();
    v.visit_block_mut(&mut lp.body);
    if v.1 == 0 {
        return vec![syn::Stmt::Local(l)];
    }
    l.init = None;
    vec![syn::Stmt::Local(l), syn::Stmt::Expr(syn::Expr::Loop(lp), Some(Default::default()))]
}
fn ctor(p: &syn::Path) -> bool {
    p.segments.last().is_some_and(|s| s.ident.to_string().starts_with(char::is_uppercase))
}
const ADAPTERS: &[&str] = &["sum", "position", "filter", "map", "any", "all", "flat_map", "count", "find", "copied", "enumerate", "rev", "take_while", "skip_while", "filter_map"];
const PREDICATES: &[&str] = &["position", "filter", "any", "all", "find", "is_some_and", "take_while", "skip_while"];
/// x.iter() that is consumed at once: the iterator of the shim
fn rename_iter(e: &mut syn::Expr) {
    if let syn::Expr::MethodCall(m) = e {
        if m.method == "iter" && m.args.is_empty() {
            m.method = proc_macro2::Ident::new("v_iter", m.method.span());
        }
    }
}
/// a closure whose body is a comparison
fn is_predicate(e: &syn::Expr) -> bool {
    let syn::Expr::Closure(c) = e else { return false };
    matches!(&*c.body, syn::Expr::Binary(b) if matches!(b.op,
        syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_)))
}
/// A predicate made of comparisons gets itself as its specification: |x| B  =>  |x| -> (b: bool) ensures b == (B) { B }
fn spec_closure(e: &syn::Expr) -> Option<syn::Expr> {
    let syn::Expr::Closure(c) = e else { return None };
    fn simple(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Binary(b) => simple(&b.left) && simple(&b.right),
            syn::Expr::Unary(u) => simple(&u.expr),
            syn::Expr::Reference(r) => simple(&r.expr),
            syn::Expr::Paren(p) => simple(&p.expr),
            syn::Expr::Field(f) => simple(&f.base),
            syn::Expr::Path(_) | syn::Expr::Lit(_) => true,
            _ => false,
        }
    }
    struct Lits;
    impl VisitMut for Lits {
        fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let syn::Expr::Reference(r) = e {
                if matches!(&*r.expr, syn::Expr::Lit(_)) {
                    *e = (*r.expr).clone();
                }
            }
        }
    }
    if c.inputs.len() != 1 || !simple(&c.body) || !matches!(c.output, syn::ReturnType::Default) {
        return None;
    }
    let mut spec = (*c.body).clone();
    Lits.visit_expr_mut(&mut spec);
    let (mut depth, mut p) = (0, &c.inputs[0]);
    while let syn::Pat::Reference(r) = p {
        depth += 1;
        p = &r.pat;
    }
    let syn::Pat::Ident(id) = p else { return None };
    let (id, body) = (id.ident.to_string(), c.body.to_token_stream().to_string());
    let spec = spec.to_token_stream().to_string();
    let text = if depth == 0 {
        format!("|{id}| -> (b: bool) ensures b == ({spec}) {{ {body} }}")
    } else {
        let d = "*".repeat(depth);
        format!("|__{id}| -> (b: bool) ensures b == ({{ let {id} = {d}__{id}; {spec} }}) {{ let {id} = {d}__{id}; {body} }}")
    };
    let lit = proc_macro2::Literal::string(&hex(&text));
    Some(syn::parse_quote!(__vraw!(#lit)))
}

/// if let P = e && c { A } else { B }   =>   if let P = e { if c { A } else { B } } else { B }
fn desugar_chain(i: &syn::ExprIf) -> Option<syn::Expr> {
    fn parts(e: &syn::Expr, out: &mut Vec<syn::Expr>) {
        if let syn::Expr::Binary(b) = e {
            if matches!(b.op, syn::BinOp::And(_)) {
                parts(&b.left, out);
                parts(&b.right, out);
                return;
            }
        }
        out.push(e.clone());
    }
    let mut ps = vec![];
    parts(&i.cond, &mut ps);
    if ps.len() < 2 || !ps.iter().any(|p| matches!(p, syn::Expr::Let(_))) {
        return None;
    }
    let els = i.else_branch.as_ref().map(|(_, e)| e.clone());
    let mut body: syn::Block = i.then_branch.clone();
    for p in ps.into_iter().rev() {
        let e: syn::Expr = match &els {
            Some(x) => syn::parse_quote!(if #p #body else #x),
            None => syn::parse_quote!(if #p #body),
        };
        body = syn::parse_quote!({ #e });
    }
    match body.stmts.pop() {
        Some(syn::Stmt::Expr(e, _)) => Some(e),
        _ => None,
    }
}

pub fn strip_sig(s: &mut syn::Signature) {
    for i in s.inputs.iter_mut() {
        match i {
            syn::FnArg::Typed(t) => {
                t.attrs.clear();
                // `mut x: T` is kept: Verus accepts it
            }
            syn::FnArg::Receiver(r) => r.attrs.clear(),
        }
    }
}
pub fn strip_attrs_item(i: &mut syn::Item) {
    struct S;
    impl VisitMut for S {
        fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
            a.clear();
        }
    }
    S.visit_item_mut(i);
}
pub fn fix_paths_text(t: TokenStream) -> String {
    // signatures and headers: the same path rewriting on tokens
    fix_tokens(t).to_string()
}
fn fix_tokens(t: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    let is = |v: &Vec<TokenTree>, i: usize, s: &str| v.get(i).is_some_and(|t| t.to_string() == s);
    while i < v.len() {
        // std :: io  => sio
        if is(&v, i, "std") && is(&v, i + 1, ":") && is(&v, i + 2, ":") && is(&v, i + 3, "io") {
            out.push(proc_macro2::Ident::new("sio", proc_macro2::Span::call_site()).into());
            i += 4;
            continue;
        }
        if is(&v, i, "brec") && is(&v, i + 1, ":") && is(&v, i + 2, ":") {
            i += 3;
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                out.push(Group::new(g.delimiter(), fix_tokens(g.stream())).into());
            }
            o => out.push(o.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

/// Inserts markers for the proof texts of the directive.
pub fn mark_points(mut b: syn::Block, d: &Directive) -> Result<syn::Block, String> {
    let names: Vec<&String> = d.points.keys().collect();
    let mk = |name: &str| -> syn::Stmt {
        let n = names.iter().position(|x| *x == name).unwrap();
        let l = proc_macro2::Literal::usize_unsuffixed(n);
        syn::parse_quote!(__vpoint!(#l);)
    };
    struct P<'a> {
        d: &'a Directive,
        mk: &'a dyn Fn(&str) -> syn::Stmt,
        seen: BTreeSet<String>,
    }
    fn loop_no(b: &syn::Block) -> Option<usize> {
        if let Some(syn::Stmt::Macro(m)) = b.stmts.first() {
            if m.mac.path.is_ident("__vloop") {
                return m.mac.tokens.to_string().parse().ok();
            }
        }
        None
    }
    impl P<'_> {
        fn body(&mut self, b: &mut syn::Block) -> Option<usize> {
            let n = loop_no(b)?;
            let k = format!("loop_start {n}");
            if self.d.points.contains_key(&k) {
                b.stmts.insert(1, (self.mk)(&k));
                self.seen.insert(k);
            }
            let k = format!("loop_end {n}");
            if self.d.points.contains_key(&k) {
                b.stmts.push((self.mk)(&k));
                self.seen.insert(k);
            }
            Some(n)
        }
    }
    fn loop_of(e: &syn::Expr) -> Option<usize> {
        match e {
            syn::Expr::Loop(l) => loop_no(&l.body),
            syn::Expr::While(l) => loop_no(&l.body),
            syn::Expr::ForLoop(l) => loop_no(&l.body),
            _ => None,
        }
    }
    fn let_name(s: &syn::Stmt) -> Option<String> {
        if let syn::Stmt::Local(l) = s {
            let mut p = &l.pat;
            if let syn::Pat::Type(t) = p {
                p = &t.pat;
            }
            if let syn::Pat::Ident(i) = p {
                return Some(i.ident.to_string());
            }
            return Some(p.to_token_stream().to_string().replace(' ', ""));
        }
        None
    }
    impl VisitMut for P<'_> {
        fn visit_expr_loop_mut(&mut self, l: &mut syn::ExprLoop) {
            visit_mut::visit_expr_loop_mut(self, l);
            self.body(&mut l.body);
        }
        fn visit_expr_while_mut(&mut self, l: &mut syn::ExprWhile) {
            visit_mut::visit_expr_while_mut(self, l);
            self.body(&mut l.body);
        }
        fn visit_expr_for_loop_mut(&mut self, l: &mut syn::ExprForLoop) {
            visit_mut::visit_expr_for_loop_mut(self, l);
            self.body(&mut l.body);
        }
        fn visit_block_mut(&mut self, b: &mut syn::Block) {
            visit_mut::visit_block_mut(self, b);
            let mut out = vec![];
            for s in std::mem::take(&mut b.stmts) {
                let ln = match &s {
                    syn::Stmt::Expr(e, _) => loop_of(e),
                    _ => None,
                };
                let mut before = vec![];
                let mut after = vec![];
                if let Some(n) = ln {
                    before.push(format!("before_loop {n}"));
                    after.push(format!("after_loop {n}"));
                }
                if let Some(n) = let_name(&s) {
                    before.push(format!("before_let {n}"));
                    after.push(format!("after_let {n}"));
                }
                // statement whose text contains a pattern: `before call_name` / `after call_name`
                for k in self.d.points.keys() {
                    if let Some(p) = k.strip_prefix("before ").or_else(|| k.strip_prefix("after ")) {
                        if self.seen.contains(k) {
                            continue;
                        }
                        let t = match &s {
                            syn::Stmt::Expr(e, Some(_)) if !matches!(e, syn::Expr::If(_) | syn::Expr::Match(_)) => e.to_token_stream().to_string(),
                            syn::Stmt::Local(l) if !l.to_token_stream().to_string().contains('{') => l.to_token_stream().to_string(),
                            _ => continue,
                        };
                        if t.replace(' ', "").contains(&p.replace(' ', "")) {
                            if k.starts_with("before ") { before.push(k.clone()) } else { after.push(k.clone()) }
                        }
                    }
                }
                for k in before {
                    if self.d.points.contains_key(&k) && self.seen.insert(k.clone()) {
                        out.push((self.mk)(&k));
                    }
                }
                out.push(s);
                for k in after {
                    if self.d.points.contains_key(&k) && self.seen.insert(k.clone()) {
                        out.push((self.mk)(&k));
                    }
                }
            }
            b.stmts = out;
        }
    }
    let mut p = P { d, mk: &mk, seen: Default::default() };
    p.visit_block_mut(&mut b);
    let mut seen = p.seen;
    if d.points.contains_key("start") {
        b.stmts.insert(0, mk("start"));
        seen.insert("start".into());
    }
    if d.points.contains_key("tail") {
        let n = b.stmts.len();
        let at = match b.stmts.last() {
            Some(syn::Stmt::Expr(_, None)) => n - 1,
            _ => n,
        };
        b.stmts.insert(at, mk("tail"));
        seen.insert("tail".into());
    }
    for k in d.points.keys() {
        if !seen.contains(k) {
            return Err(format!("no place for the proof text `{k}`"));
        }
    }
    Ok(b)
}

/// Puts contract texts back in place of the markers.
pub fn expand_marks(text: &str, d: &Directive) -> Result<String, String> {
    let mut s = text.to_string();
    // loops: "{ __vloop!(n);" => clauses "{"
    while let Some(at) = s.find("__vloop!(") {
        let end = s[at..].find(");").unwrap() + at;
        let n: usize = s[at + 9..end].trim().parse().map_err(|_| "marker".to_string())?;
        let open = s[..at].rfind('{').ok_or("marker")?;
        let clause = d.loops.get(&n).cloned().unwrap_or_default();
        s = format!("{}\n{}{{{}", s[..open].trim_end(), clause, &s[end + 2..]);
    }
    for (n, (_, t)) in d.points.iter().enumerate() {
        let m = format!("__vpoint!({n});");
        s = s.replace(&m, &format!("\n{}", t.trim_end()));
    }
    for (n, (_, rep)) in d.rewrites.iter().enumerate() {
        // __vrw_n ! { captures }
        let _ = (n, rep);
    }
    // raw replacements
    while let Some(at) = s.find("__vraw!(") {
        let rest = &s[at + 8..];
        let q = rest.find('"').ok_or("raw marker")? + 1;
        let q2 = q + rest[q..].find('"').ok_or("raw marker")?;
        let end = q2 + rest[q2..].find(')').ok_or("raw marker")?;
        let t = unhex(&rest[q..q2]);
        s = format!("{}{}{}", &s[..at], t, &rest[end + 1..]);
    }
    Ok(s)
}

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(b'?')).collect();
    String::from_utf8_lossy(&b).to_string()
}

// ---- token patterns: `$x` captures one token tree, `$..x` captures tokens up to the next pattern token ----

enum Pt {
    Tok(String),
    Grp(Delimiter, Vec<Pt>),
    Cap(String),
    Many(String),
}
fn pat(t: TokenStream) -> Vec<Pt> {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        if v[i].to_string() == "$" {
            if v.get(i + 1).is_some_and(|t| t.to_string() == ".") {
                out.push(Pt::Many(v[i + 3].to_string()));
                i += 4;
            } else {
                out.push(Pt::Cap(v[i + 1].to_string()));
                i += 2;
            }
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => out.push(Pt::Grp(g.delimiter(), pat(g.stream()))),
            o => out.push(Pt::Tok(o.to_string())),
        }
        i += 1;
    }
    out
}
fn matches(p: &[Pt], t: &[TokenTree], caps: &mut BTreeMap<String, TokenStream>, whole: bool) -> Option<usize> {
    if p.is_empty() {
        return if !whole || t.is_empty() { Some(0) } else { None };
    }
    match &p[0] {
        Pt::Tok(s) => {
            if t.first()?.to_string() == *s && !matches!(t[0], TokenTree::Group(_)) {
                Some(1 + matches(&p[1..], &t[1..], caps, whole)?)
            } else {
                None
            }
        }
        Pt::Grp(d, inner) => {
            if let TokenTree::Group(g) = t.first()? {
                if g.delimiter() == *d {
                    let it: Vec<TokenTree> = g.stream().into_iter().collect();
                    matches(inner, &it, caps, true)?;
                    return Some(1 + matches(&p[1..], &t[1..], caps, whole)?);
                }
            }
            None
        }
        Pt::Cap(n) => {
            let x = t.first()?.clone();
            caps.insert(n.clone(), x.into());
            Some(1 + matches(&p[1..], &t[1..], caps, whole)?)
        }
        Pt::Many(n) => {
            for k in 0..=t.len() {
                let mut c2 = caps.clone();
                c2.insert(n.clone(), t[..k].iter().cloned().collect());
                if let Some(r) = matches(&p[1..], &t[k..], &mut c2, whole) {
                    *caps = c2;
                    return Some(k + r);
                }
            }
            None
        }
    }
}
fn subst(rep: &str, caps: &BTreeMap<String, TokenStream>) -> String {
    let mut s = rep.to_string();
    for (k, v) in caps.iter().rev() {
        s = s.replace(&format!("$..{k}"), &v.to_string()).replace(&format!("${k}"), &v.to_string());
    }
    s
}
fn rewrite_stream(t: TokenStream, p: &[Pt], rep: &str, n: &mut usize) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut caps = BTreeMap::new();
        if let Some(k) = matches(p, &v[i..], &mut caps, false) {
            if k > 0 {
                *n += 1;
                let text = subst(rep, &caps);
                // plain Rust replacements stay visible to later rewrites, others become raw text
                match text.parse::<TokenStream>() {
                    Ok(ts) if !rep.trim_start().starts_with("raw:") => out.extend(ts),
                    _ => {
                        let h = hex(text.trim_start().trim_start_matches("raw:"));
                        let lit = proc_macro2::Literal::string(&h);
                        out.extend(quote::quote!(__vraw!(#lit)));
                    }
                }
                i += k;
                continue;
            }
        }
        match &v[i] {
            TokenTree::Group(g) => out.push(Group::new(g.delimiter(), rewrite_stream(g.stream(), p, rep, n)).into()),
            o => out.push(o.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
pub fn apply_rewrites(mut t: TokenStream, rw: &[(String, String)]) -> Result<TokenStream, String> {
    for (p, r) in rw {
        let (opt, p) = match p.strip_prefix("?") {
            Some(x) => (true, x),
            None => (false, p.as_str()),
        };
        let pt = pat(p.replace("$..", "$ . . ").parse::<TokenStream>().map_err(|e| format!("pattern {p}: {e}"))?);
        let mut n = 0;
        t = rewrite_stream(t, &pt, r, &mut n);
        if n == 0 && !opt {
            return Err(format!("the code no longer contains `{p}`"));
        }
    }
    Ok(t)
}

/// `:unfold`: iterator pipelines over .iter() as the loops they stand for
/// (map/filter_map + collect, map + sum, any, all, find_map); closures without `return` only.
pub fn unfold(b: &mut syn::Block) {
    struct U {
        n: usize,
    }
    fn source(e: &syn::Expr) -> bool {
        matches!(e, syn::Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty())
            || matches!(e, syn::Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty())
    }
    fn closure(m: &syn::ExprMethodCall) -> Option<(syn::Pat, syn::Expr)> {
        if m.args.len() != 1 {
            return None;
        }
        let syn::Expr::Closure(c) = &m.args[0] else { return None };
        if c.inputs.len() != 1 || c.body.to_token_stream().to_string().contains("return ") {
            return None;
        }
        let p = match &c.inputs[0] {
            syn::Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        Some((p, (*c.body).clone()))
    }
    impl VisitMut for U {
        fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
            visit_mut::visit_expr_mut(self, e);
            let syn::Expr::MethodCall(m) = &*e else { return };
            let name = m.method.to_string();
            let acc = proc_macro2::Ident::new(&format!("acc{}", self.n), proc_macro2::Span::call_site());
            let new: Option<syn::Expr> = match name.as_str() {
                "collect" | "sum" if m.args.is_empty() => (|| {
                    let syn::Expr::MethodCall(inner) = &*m.receiver else { return None };
                    if !source(&inner.receiver) {
                        return None;
                    }
                    let (p, body) = closure(inner)?;
                    let src = &inner.receiver;
                    let ty: syn::Type = m
                        .turbofish
                        .as_ref()
                        .and_then(|t| t.args.first())
                        .and_then(|a| if let syn::GenericArgument::Type(t) = a { Some(t.clone()) } else { None })
                        .unwrap_or_else(|| syn::parse_quote!(Vec<_>));
                    match (name.as_str(), inner.method.to_string().as_str()) {
                        ("collect", "map") => Some(syn::parse_quote!({
                            let mut #acc: #ty = Vec::new();
                            for #p in #src { let v = #body; #acc.push(v); }
                            #acc
                        })),
                        ("collect", "filter_map") => Some(syn::parse_quote!({
                            let mut #acc: #ty = Vec::new();
                            for #p in #src { match #body { Some(v) => { #acc.push(v); } None => {} } }
                            #acc
                        })),
                        ("sum", "map") => Some(syn::parse_quote!({
                            let mut #acc: u64 = 0;
                            for #p in #src { let v = #body; #acc += v; }
                            #acc
                        })),
                        _ => None,
                    }
                })(),
                "any" | "all" | "find_map" if source(&m.receiver) => closure(m).map(|(p, body)| {
                    let src = &m.receiver;
                    match name.as_str() {
                        "any" => syn::parse_quote!({
                            let mut #acc = false;
                            for #p in #src { if #body { #acc = true; break; } }
                            #acc
                        }),
                        "all" => syn::parse_quote!({
                            let mut #acc = true;
                            for #p in #src { if !(#body) { #acc = false; break; } }
                            #acc
                        }),
                        _ => syn::parse_quote!({
                            let mut #acc = None;
                            for #p in #src { match #body { Some(v) => { #acc = Some(v); break; } None => {} } }
                            #acc
                        }),
                    }
                }),
                _ => None,
            };
            if let Some(x) = new {
                self.n += 1;
                *e = x;
            }
        }
    }
    U { n: 0 }.visit_block_mut(b);
}
