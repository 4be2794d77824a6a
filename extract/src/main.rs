//! vextract <unit.vc> <repo> <out.rs> <out.json> [--stub KEY]...
//!
//! Assembles a Verus file from raw text (specifications, lemmas, shims) and from functions taken
//! mechanically from the repository's sources on every run. What it changes in an extracted function is
//! listed in DESIGN.md ("what the extraction drops").
mod rewrite;
mod vc;
use proc_macro2::TokenStream;
use quote::ToTokens;
use rewrite::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use vc::*;

struct Sources {
    repo: String,
    files: HashMap<String, syn::File>,
}
impl Sources {
    fn get(&mut self, path: &str) -> Result<&syn::File, String> {
        if !self.files.contains_key(path) {
            let full = if path.starts_with('/') {
                path.to_string()
            } else if let Some(rest) = path.strip_prefix("@gen/") {
                format!("{}/{rest}", std::env::var("VX_GEN").map_err(|_| "VX_GEN is not set".to_string())?)
            } else {
                format!("{}/{path}", self.repo)
            };
            let text = std::fs::read_to_string(&full).map_err(|e| format!("{full}: {e}"))?;
            let f = syn::parse_file(&text).map_err(|e| format!("{full}: {e}"))?;
            self.files.insert(path.to_string(), f);
        }
        Ok(&self.files[path])
    }
}

fn last_ident(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => last_ident(&p.path),
        syn::Type::Reference(r) => type_name(&r.elem),
        other => other.to_token_stream().to_string(),
    }
}

pub struct Found {
    pub sig: syn::Signature,
    pub vis: String,
    pub block: Option<syn::Block>,
    /// header of the surrounding impl or trait, empty for a free function
    pub header: String,
    pub in_trait_impl: bool,
    pub of_trait: Option<String>,
    pub assoc: Vec<String>,
}

/// All items of a file, those of inline modules included.
fn flat<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    for i in items {
        if let syn::Item::Mod(m) = i {
            if m.attrs.iter().any(|a| a.to_token_stream().to_string().replace(' ', "").contains("cfg(test)")) {
                continue;
            }
            if let Some((_, it)) = &m.content {
                flat(it, out);
            }
        }
        out.push(i);
    }
}

fn impl_header(i: &syn::ItemImpl) -> String {
    let g = &i.generics;
    let (w, params) = (&g.where_clause, &g.params);
    let gen = if params.is_empty() { TokenStream::new() } else { quote::quote!(<#params>) };
    let ty = &i.self_ty;
    let t = match &i.trait_ {
        Some((_, p, _)) => quote::quote!(impl #gen #p for #ty #w),
        None => quote::quote!(impl #gen #ty #w),
    };
    fix_paths_text(t)
}

fn find_fn(f: &syn::File, key: &str) -> Result<Found, String> {
    // `outer > inner`: a function item inside a function body
    if let Some((outer, inner)) = key.split_once(" > ") {
        let o = find_fn(f, outer)?;
        for st in o.block.iter().flat_map(|b| &b.stmts) {
            if let syn::Stmt::Item(syn::Item::Fn(f)) = st {
                if f.sig.ident == inner {
                    return Ok(Found {
                        sig: f.sig.clone(),
                        vis: String::new(),
                        block: Some((*f.block).clone()),
                        header: String::new(),
                        in_trait_impl: false,
                        of_trait: None,
                        assoc: vec![],
                    });
                }
            }
        }
        return Err(format!("function {key} not found"));
    }
    let mut items = vec![];
    flat(&f.items, &mut items);
    let (owner, name) = match key.rsplit_once("::") {
        Some((o, n)) => (Some(o), n),
        None => (None, key),
    };
    let mut hits = vec![];
    for it in items {
        match (it, owner) {
            (syn::Item::Fn(f), None) if f.sig.ident == name => hits.push(Found {
                sig: f.sig.clone(),
                vis: f.vis.to_token_stream().to_string(),
                block: Some((*f.block).clone()),
                header: String::new(),
                in_trait_impl: false,
                of_trait: None,
                assoc: vec![],
            }),
            (syn::Item::Impl(i), Some(o)) => {
                let ok = match o.split_once('@') {
                    Some((tr, ty)) => {
                        let full = i.trait_.as_ref().map(|(_, p, _)| p.to_token_stream().to_string().replace(' ', ""));
                        let short = i.trait_.as_ref().map(|(_, p, _)| last_ident(p));
                        (full.as_deref() == Some(tr) || short.as_deref() == Some(tr)) && type_name(&i.self_ty) == ty
                    }
                    None => i.trait_.is_none() && type_name(&i.self_ty) == o,
                };
                if ok {
                    let assoc: Vec<String> = i
                        .items
                        .iter()
                        .filter_map(|x| match x {
                            syn::ImplItem::Type(t) => Some(fix_paths_text(t.to_token_stream())),
                            _ => None,
                        })
                        .collect();
                    for x in &i.items {
                        if let syn::ImplItem::Fn(f) = x {
                            if f.sig.ident == name {
                                hits.push(Found {
                                    sig: f.sig.clone(),
                                    vis: f.vis.to_token_stream().to_string(),
                                    block: Some(f.block.clone()),
                                    header: impl_header(i),
                                    in_trait_impl: i.trait_.is_some(),
                                    of_trait: i.trait_.as_ref().map(|(_, p, _)| last_ident(p)),
                                    assoc: assoc.clone(),
                                });
                            }
                        }
                    }
                }
            }
            (syn::Item::Trait(t), Some(o)) if o.strip_prefix("trait ") == Some(&t.ident.to_string()) => {
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        if f.sig.ident == name {
                            let (id, g, st) = (&t.ident, &t.generics, &t.supertraits);
                            let colon = if st.is_empty() { TokenStream::new() } else { quote::quote!(:) };
                            let w = &g.where_clause;
                            hits.push(Found {
                                sig: f.sig.clone(),
                                vis: String::new(),
                                block: f.default.clone(),
                                header: fix_paths_text(quote::quote!(pub trait #id #g #colon #st #w)),
                                in_trait_impl: true,
                                of_trait: Some(t.ident.to_string()),
                                assoc: vec![],
                            });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    match hits.len() {
        0 => Err(format!("function {key} not found")),
        1 => Ok(hits.pop().unwrap()),
        n => Err(format!("{n} functions match {key}")),
    }
}

fn emit_item(f: &syn::File, kind: &str, name: &str, d: &Directive) -> Result<String, String> {
    let mut items = vec![];
    flat(&f.items, &mut items);
    for it in items {
        let (k, id) = match it {
            syn::Item::Const(c) => ("const", c.ident.to_string()),
            syn::Item::Static(c) => ("static", c.ident.to_string()),
            syn::Item::Struct(c) => ("struct", c.ident.to_string()),
            syn::Item::Enum(c) => ("enum", c.ident.to_string()),
            syn::Item::Type(c) => ("type", c.ident.to_string()),
            syn::Item::Impl(i) if kind == "assoc_const" => {
                // Type::NAME
                let (ty, n) = name.split_once("::").unwrap_or(("", name));
                if type_name(&i.self_ty) == ty {
                    for x in &i.items {
                        if let syn::ImplItem::Const(c) = x {
                            if c.ident == n {
                                let mut c = c.clone();
                                c.attrs.clear();
                                Rw::default().visit_expr(&mut c.expr);
                                let text = apply_rewrites(c.to_token_stream(), &d.rewrites)?;
                                return Ok(format!("{} {{ {} }}\n", impl_header(i), fix_paths_text(text)));
                            }
                        }
                    }
                }
                continue;
            }
            _ => continue,
        };
        if id != name || (k != kind && !(k == "static" && kind == "const")) {
            continue;
        }
        let mut it = it.clone();
        strip_attrs_item(&mut it);
        if let syn::Item::Struct(s) = &mut it {
            s.vis = syn::parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.vis = syn::parse_quote!(pub);
            }
        }
        if let syn::Item::Enum(s) = &mut it {
            s.vis = syn::parse_quote!(pub);
        }
        if let syn::Item::Static(s) = &it {
            let (v, i, t, e) = (&s.vis, &s.ident, &s.ty, &s.expr);
            it = syn::parse_quote!(#v const #i: #t = #e;);
        }
        {
            use syn::visit_mut::VisitMut;
            Rw::default().visit_item_mut(&mut it);
        }
        let toks = apply_rewrites(it.to_token_stream(), &d.rewrites)?;
        let derive = d.sections.get("derive").map(|s| format!("#[derive({})]\n", s.trim())).unwrap_or_default();
        return Ok(format!("{derive}{}\n", pretty_or_plain(toks)));
    }
    Err(format!("{kind} {name} not found"))
}

fn pretty_or_plain(t: TokenStream) -> String {
    match syn::parse2::<syn::File>(t.clone()) {
        Ok(f) => prettyplease::unparse(&f),
        Err(_) => t.to_string(),
    }
}

struct Emit {
    text: String,
}
impl Emit {
    fn line(&self) -> usize {
        self.text.matches('\n').count() + 1
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: vextract unit.vc repo out.rs out.json [--stub KEY]...");
        std::process::exit(2);
    }
    let stubs: BTreeSet<String> = args.windows(2).filter(|w| w[0] == "--stub").map(|w| w[1].clone()).collect();
    let dir = std::path::Path::new(&args[1]).parent().unwrap().to_path_buf();
    let mut src = Sources { repo: args[2].clone(), files: HashMap::new() };
    let ds = match parse_vc(&args[1]) {
        Ok(d) => d,
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(2);
        }
    };
    for d in &ds {
        if let Kind::Item(path, kind, name) = &d.kind {
            if kind != "const" && kind != "static" {
                continue;
            }
            if let Ok(f) = src.get(path) {
                let mut items = vec![];
                flat(&f.items, &mut items);
                for it in items {
                    let (id, ty) = match it {
                        syn::Item::Const(c) => (&c.ident, &*c.ty),
                        syn::Item::Static(c) => (&c.ident, &*c.ty),
                        _ => continue,
                    };
                    if id == name {
                        if let syn::Type::Array(a) = ty {
                            let t = a.len.to_token_stream().to_string();
                            if let Ok(n) = t.trim_end_matches("usize").parse() {
                                ARRAYS.with(|m| m.borrow_mut().insert(name.clone(), n));
                            }
                        }
                    }
                }
            }
        }
    }
    let mut out = Emit { text: String::new() };
    let mut map: Vec<serde_json::Value> = vec![];
    let mut lost: BTreeMap<String, String> = BTreeMap::new();
    let mut used_files: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut open: Option<String> = None;
    // an override of a default method the contracts below rely on: they would be about other code
    let mut over: Option<String> = None;
    let mut i = 0;
    while i < ds.len() {
        let d = &ds[i];
        i += 1;
        // close a pending impl unless this directive continues it
        let close = |out: &mut Emit, open: &mut Option<String>| {
            if open.take().is_some() {
                out.text.push_str("}\n");
            }
        };
        match &d.kind {
            Kind::Raw => {
                close(&mut out, &mut open);
                let a = out.line();
                out.text.push_str(&d.text);
                out.text.push('\n');
                map.push(serde_json::json!({"key": d.name, "what": "raw", "from": a, "to": out.line()}));
            }
            Kind::Include(p) => {
                close(&mut out, &mut open);
                let a = out.line();
                let t = std::fs::read_to_string(dir.join(p)).unwrap_or_else(|e| {
                    eprintln!("{p}: {e}");
                    std::process::exit(2)
                });
                out.text.push_str(&t);
                out.text.push('\n');
                map.push(serde_json::json!({"key": p, "what": "raw", "from": a, "to": out.line()}));
            }
            Kind::Item(path, kind, name) => {
                close(&mut out, &mut open);
                let key = format!("{path} {kind} {name}");
                let a = out.line();
                match src.get(path).and_then(|f| emit_item(f, kind, name, d)) {
                    Ok(t) => out.text.push_str(&t),
                    Err(e) => {
                        lost.insert(key.clone(), e);
                    }
                }
                map.push(serde_json::json!({"key": key, "what": "item", "from": a, "to": out.line()}));
            }
            Kind::Absent(path, key) => {
                if src.get(path).and_then(|f| find_fn(f, key)).is_ok() {
                    over = Some(format!("{path} {key}"));
                }
            }
            Kind::Func(path, key) => {
                let full = format!("{path} {key}");
                let found = src.get(path).and_then(|f| find_fn(f, key));
                let found = match found {
                    Ok(f) => f,
                    Err(e) => {
                        // the contract stays available to callers when a signature is given
                        close(&mut out, &mut open);
                        lost.insert(full.clone(), e);
                        continue;
                    }
                };
                used_files.entry(path.clone()).or_default().insert(key.rsplit("::").next().unwrap().to_string());
                let header = d.sections.get("header").cloned().unwrap_or_else(|| found.header.clone());
                let header = header.trim().to_string();
                if open.as_deref() != Some(&header) || d.flags.contains("new_impl") {
                    close(&mut out, &mut open);
                    if !header.is_empty() {
                        out.text.push_str(&format!("{header} {{\n"));
                        for a in found.assoc.iter().filter(|_| !d.sections.contains_key("header")) {
                            out.text.push_str(&format!("{a}\n"));
                        }
                        if let Some(x) = d.sections.get("impl_extra") {
                            out.text.push_str(x);
                        }
                        open = Some(header.clone());
                    }
                }
                let stub = d.flags.contains("stub") || stubs.contains(&full);
                let a = out.line();
                let r = match &over {
                    Some(k) => Err(format!("{k} is overridden")),
                    None => emit_fn(&found, d, stub),
                };
                let (text, stubbed, calls) = match r {
                    Ok((t, calls)) => (t, stub, calls),
                    Err(e) => {
                        lost.insert(full.clone(), e);
                        match emit_fn(&found, d, true) {
                            Ok((t, c)) => (t, true, c),
                            Err(_) => (String::new(), true, vec![]),
                        }
                    }
                };
                out.text.push_str(&text);
                map.push(serde_json::json!({"key": full, "what": "fn", "from": a, "to": out.line(), "stub": stubbed,
                    "assumed": d.flags.contains("stub"), "calls": calls, "contracted": !d.sections.is_empty(),
                    "props": d.sections.get("props").map(|s| s.split_whitespace().map(String::from).collect::<Vec<_>>()).unwrap_or_default(), "name": key.rsplit("::").next().unwrap()}));
            }
        }
    }
    if open.is_some() {
        out.text.push_str("}\n");
    }
    out.text.push_str("} // verus!\nfn main() {}\n");
    // every function defined in the files read, so that the driver sees helpers without a contract
    let mut defs: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (p, _) in &used_files {
        if let Ok(f) = src.get(p) {
            let mut items = vec![];
            flat(&f.items, &mut items);
            let mut s = BTreeSet::new();
            for it in items {
                match it {
                    syn::Item::Fn(f) => {
                        s.insert(f.sig.ident.to_string());
                    }
                    syn::Item::Impl(i) => {
                        for x in &i.items {
                            if let syn::ImplItem::Fn(f) = x {
                                s.insert(f.sig.ident.to_string());
                            }
                        }
                    }
                    _ => {}
                }
            }
            defs.insert(p.clone(), s);
        }
    }
    std::fs::write(&args[3], &out.text).unwrap();
    std::fs::write(
        &args[4],
        serde_json::to_string_pretty(&serde_json::json!({"map": map, "lost": lost, "defs": defs})).unwrap(),
    )
    .unwrap();
}

fn self_to_me(t: TokenStream) -> TokenStream {
    use proc_macro2::{Group, Ident, TokenTree};
    t.into_iter()
        .map(|x| match x {
            TokenTree::Ident(i) if i == "self" => TokenTree::Ident(Ident::new("me", i.span())),
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), self_to_me(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            x => x,
        })
        .collect()
}

/// Text of one function: signature, contract, body.
fn emit_fn(f: &Found, d: &Directive, stub: bool) -> Result<(String, Vec<String>), String> {
    let mut sig = f.sig.clone();
    strip_sig(&mut sig);
    {
        use syn::visit_mut::VisitMut;
        Rw::default().visit_signature_mut(&mut sig);
    }
    // `mut self` is `self` moved into a variable
    let mut own = false;
    if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            own = true;
        }
    }
    let mut calls = vec![];
    let body = match (&f.block, stub) {
        (None, _) => None,
        (Some(_), true) => Some("{ unimplemented!() }".to_string()),
        (Some(b), false) => {
            let mut b = b.clone();
            // function items inside a body are units of their own
            b.stmts.retain(|s| !matches!(s, syn::Stmt::Item(syn::Item::Fn(_))));
            if own {
                let t = self_to_me(b.to_token_stream());
                b = syn::parse2(t).map_err(|e| format!("mut self: {e}"))?;
                b.stmts.insert(0, syn::parse_quote!(let mut me = self;));
            }
            if d.flags.contains("unfold") {
                rewrite::unfold(&mut b);
            }
            let mut rw = Rw { resmap: d.flags.contains("resmap"), optmap: d.flags.contains("optmap"), ..Rw::default() };
            {
                use syn::visit_mut::VisitMut;
                rw.visit_block_mut(&mut b);
            }
            calls = rw.calls.iter().cloned().collect();
            if let Some(n) = d.sections.get("loops") {
                let want: usize = n.trim().parse().map_err(|_| "bad :loops".to_string())?;
                if want != rw.loops {
                    return Err(format!("the function has {} loops, its contract expects {want}", rw.loops));
                }
            } else if rw.loops != d.loops.len() {
                return Err(format!("the function has {} loops, its contract describes {}", rw.loops, d.loops.len()));
            }
            if let Some(want) = d.sections.get("stmt_count") {
                let want: usize = want.trim().parse().map_err(|_| "bad :stmt_count".to_string())?;
                if want != b.stmts.len() {
                    return Err(format!("{} statements, the contract expects {want}", b.stmts.len()));
                }
            }
            let marked = mark_points(b, d)?;
            let toks = apply_rewrites(marked.to_token_stream(), &d.rewrites)?;
            let blk: syn::Block = syn::parse2(toks).map_err(|e| format!("rewritten body: {e}"))?;
            let item: syn::File = syn::parse_quote!(fn __b() #blk);
            let text = prettyplease::unparse(&item);
            let at = text.find('{').unwrap();
            let t = expand_marks(text[at..].trim_end(), d)?;
            // vacuity check: `false` must not follow from the precondition and the axioms
            let canary = std::env::var("VX_CANARY").is_ok();
            Some(if canary {
                // behind `hide(..)` headers, which have to come first
                let at = t.lines().take_while(|l| l.trim() == "{" || l.trim().is_empty() || l.trim().starts_with("hide(")).map(|l| l.len() + 1).sum::<usize>();
                let at = if t[..at.min(t.len())].contains("hide(") { at } else { 1 };
                format!("{}\nproof {{ assert(false); }}\n{}", &t[..at], &t[at..])
            } else {
                t
            })
        }
    };
    let sr: Vec<(String, String)> = d
        .sections
        .get("sig_rewrite")
        .map(|t| t.lines().filter_map(|l| l.split_once("=>>")).map(|(a, b)| (a.trim().to_string(), b.trim().to_string())).collect())
        .unwrap_or_default();
    if !sr.is_empty() {
        let t = apply_rewrites(sig.to_token_stream(), &sr)?;
        sig = syn::parse2(t).map_err(|e| format!("rewritten signature: {e}"))?;
    }
    let gen = sig.generics.params.clone();
    let gen = if gen.is_empty() { TokenStream::new() } else { quote::quote!(<#gen>) };
    if let Some(x) = f.of_trait.as_deref().and_then(|t| renamed(t, &sig.ident.to_string())) {
        sig.ident = proc_macro2::Ident::new(x, sig.ident.span());
    }
    let (id, inputs, wh) = (&sig.ident, &sig.inputs, &sig.generics.where_clause);
    let ret = match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => {
            let n = d.sections.get("ret").map(|s| s.trim().to_string()).unwrap_or("r".into());
            format!(" -> ({n}: {})", fix_paths_text(t.to_token_stream()))
        }
    };
    let head = d.sections.get("header").map(|h| h.trim().to_string());
    let vis = if f.in_trait_impl && head.as_deref().is_none_or(|h| h.contains("trait ") || h.contains(" for ")) { "" } else { "pub " };
    let mut s = String::new();
    if stub {
        s.push_str("#[verifier::external_body]\n");
    }
    if let Some(a) = d.sections.get("attr") {
        s.push_str(a);
    }
    s.push_str(&format!(
        "{vis}fn {id} {}({}){ret} {}\n",
        fix_paths_text(gen),
        fix_paths_text(inputs.to_token_stream()),
        fix_paths_text(wh.to_token_stream())
    ));
    for k in ["requires", "ensures", "default_ensures"] {
        if let Some(t) = d.sections.get(k) {
            s.push_str(&format!("    {k}\n{}\n", t.trim_end()));
        }
    }
    if let Some(t) = d.sections.get("decreases") {
        s.push_str(&format!("    decreases\n{}\n", t.trim_end()));
    }
    if d.flags.contains("no_unwind") {
        s.push_str("    no_unwind\n");
    }
    match body {
        Some(b) => s.push_str(&b),
        None => s.push(';'),
    }
    s.push_str("\n\n");
    Ok((s, calls))
}
