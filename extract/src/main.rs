//! Mechanical extraction of /repo/src into one Verus file.
mod contract;
mod printer;
mod tx;
mod expand;

use contract::FnAnn;
use printer::{Mark, Out};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

pub fn norm<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join("") }

pub struct Ctx {
    pub anns: BTreeMap<String, FnAnn>,
    pub statics: BTreeSet<String>,
    pub static_items: Vec<(String, String, Type, Expr)>, // module, name, type, init
    pub macros: BTreeMap<String, expand::MacroDef>,
    pub alias: BTreeMap<String, Vec<usize>>, // functions with aliased CharStream parameter positions
    pub fns: BTreeMap<String, (Option<String>, ItemFn)>, // full name -> (self type, fn)
    pub rules: BTreeMap<String, usize>,
    pub problems: Vec<(String, String)>, // function, problem
    pub lost: Vec<(String, String)>,     // function, lost anchor
    pub marks: BTreeMap<usize, Mark>,
    pub next_mark: usize,
    pub info: Vec<FnInfo>,
}
#[derive(Clone)]
pub struct FnInfo { pub name: String, pub emitted: String, pub contract: bool, pub props: Vec<String>, pub hash: u64, pub skipped: Option<String>, pub first: usize, pub last: usize, pub external: bool }

impl Ctx {
    pub fn rule(&mut self, r: &str) { *self.rules.entry(r.to_string()).or_insert(0) += 1; }
    pub fn add_mark(&mut self, m: Mark) -> usize { self.next_mark += 1; self.marks.insert(self.next_mark, m); self.next_mark }
}

pub struct Module { pub path: String, pub items: Vec<Item>, pub subs: Vec<Module> }

fn is_test(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| { let t = norm(a); t.contains("cfg(test)") || t == "#[test]" }) }

fn load_module(file: &str, dir: &str, path: &str, ctx: &mut Ctx) -> Module {
    let src = std::fs::read_to_string(file).unwrap_or_else(|e| { eprintln!("EXTRACT-ERROR cannot read {}: {}", file, e); std::process::exit(3) });
    let f = parse_file(&src).unwrap_or_else(|e| { eprintln!("EXTRACT-ERROR cannot parse {}: {}", file, e); std::process::exit(3) });
    module_items(f.items, dir, path, ctx)
}
fn module_items(items: Vec<Item>, dir: &str, path: &str, ctx: &mut Ctx) -> Module {
    let mut m = Module { path: path.to_string(), items: vec![], subs: vec![] };
    // macros first
    for it in &items { if let Item::Macro(mm) = it { if let Some(id) = &mm.ident { if let Some(d) = expand::MacroDef::parse(&mm.mac.tokens) { ctx.macros.insert(format!("{}::{}", path, id), d); } } } }
    for it in items {
        match it {
            Item::Mod(mm) => {
                if is_test(&mm.attrs) { continue; }
                let name = mm.ident.to_string();
                let sub = if path.is_empty() { name.clone() } else { format!("{}::{}", path, name) };
                let mo = match mm.content {
                    Some((_, items)) => module_items(items, &format!("{}/{}", dir, name), &sub, ctx),
                    None => {
                        let a = format!("{}/{}.rs", dir, name); let b = format!("{}/{}/mod.rs", dir, name);
                        let f = if std::path::Path::new(&a).exists() { a } else { b };
                        load_module(&f, &format!("{}/{}", dir, name), &sub, ctx)
                    }
                };
                m.subs.push(mo);
            }
            Item::Macro(mm) => {
                if mm.ident.is_some() { continue; }
                let n = mm.mac.path.segments.last().unwrap().ident.to_string();
                if n == "lazy_static" { expand::lazy_static(&mm.mac.tokens, path, ctx); continue; }
                match ctx.macros.get(&format!("{}::{}", path, n)).cloned() {
                    Some(d) => match d.expand(&mm.mac.tokens) {
                        Ok(ts) => { ctx.rule("R-MACRO expand item macro"); let f: File = parse2(ts).expect("macro expansion"); for i in f.items { m.items.push(i) } }
                        Err(e) => ctx.problems.push((format!("{}::{}!", path, n), e)),
                    },
                    None => ctx.problems.push((format!("{}::{}!", path, n), "unknown item macro".into())),
                }
            }
            Item::Fn(ref f) if is_test(&f.attrs) => {}
            Item::Use(ref u) if is_test(&u.attrs) => {}
            Item::ExternCrate(_) => {}
            it => m.items.push(it),
        }
    }
    m
}
fn expand_impl_macros(m: &mut Module, ctx: &mut Ctx) {
    let path = m.path.clone();
    for it in m.items.iter_mut() {
        if let Item::Impl(im) = it {
            let mut out = vec![];
            for ii in std::mem::take(&mut im.items) {
                if let ImplItem::Macro(mm) = &ii {
                    let n = mm.mac.path.segments.last().unwrap().ident.to_string();
                    match ctx.macros.get(&format!("{}::{}", path, n)).cloned().ok_or_else(|| "unknown macro".to_string()).and_then(|d| d.expand(&mm.mac.tokens)) {
                        Ok(ts) => { ctx.rule("R-MACRO expand item macro"); let w: ItemImpl = parse2(quote!(impl X { #ts })).expect("impl macro"); out.extend(w.items); }
                        Err(e) => ctx.problems.push((format!("{}::{}!", path, n), e)),
                    }
                } else { out.push(ii) }
            }
            im.items = out;
        }
    }
    // derives
    let mut extra = vec![];
    for it in &m.items {
        let (attrs, ident) = match it { Item::Enum(e) => (&e.attrs, &e.ident), Item::Struct(s) => (&s.attrs, &s.ident), _ => continue };
        if attrs.iter().any(|a| { let t = norm(a); t.starts_with("#[derive(") && (t.contains("PartialEq,") || t.contains("PartialEq)")) }) {
            let key = format!("{}::<{} as PartialEq>::eq", path, ident);
            let key2 = key.trim_start_matches("::").to_string();
            if ctx.anns.contains_key(&key2) { ctx.rule("R-DERIVE expand derive(PartialEq)"); extra.push(expand::derive_eq(it)); }
        }
        if attrs.iter().any(|a| { let t = norm(a); t.starts_with("#[derive(") && (t.contains("(Clone") || t.contains(" Clone")) }) {
            let key = format!("{}::<{} as Clone>::clone", path, ident);
            let key2 = key.trim_start_matches("::").to_string();
            if ctx.anns.contains_key(&key2) { ctx.rule("R-DERIVE expand derive(Clone)"); extra.push(expand::derive_clone(it)); }
        }
    }
    m.items.extend(extra);
    for s in m.subs.iter_mut() { expand_impl_macros(s, ctx) }
}

pub fn qual(path: &str, n: &str) -> String { if path.is_empty() { n.to_string() } else { format!("{}::{}", path, n) } }

fn collect_fns(m: &Module, ctx: &mut Ctx) {
    for it in &m.items {
        match it {
            Item::Fn(f) => { ctx.fns.insert(qual(&m.path, &f.sig.ident.to_string()), (None, f.clone())); }
            Item::Impl(im) => for ii in &im.items { if let ImplItem::Fn(f) = ii {
                let ty = norm(&im.self_ty);
                let name = match &im.trait_ { Some((_, p, _)) => format!("<{} as {}>::{}", ty, norm(p), f.sig.ident), None => format!("{}::{}", ty, f.sig.ident) };
                ctx.fns.insert(qual(&m.path, &name), (Some(ty), ItemFn { attrs: vec![], vis: f.vis.clone(), sig: f.sig.clone(), block: Box::new(f.block.clone()) }));
            } },
            _ => {}
        }
    }
    for s in &m.subs { collect_fns(s, ctx) }
}

fn use_keep(t: &UseTree) -> bool {
    match t { UseTree::Path(p) => { let n = p.ident.to_string(); n == "crate" || n == "super" || n == "self" } _ => false }
}
// crate-internal imports whose target is dropped (macros, nothing else)
struct Emit<'a> { ctx: &'a mut Ctx, out: Out, glue: String, base: String }

impl<'a> Emit<'a> {
    fn module(&mut self, m: &Module) {
        let path = m.path.clone();
        if !path.is_empty() { let n = path.rsplit("::").next().unwrap().to_string(); self.out.nl(); self.out.raw(&format!("pub mod {} {{\n", n)); self.out.raw("#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vx::*;\n#[allow(unused_imports)] use crate::sp::*;\n#[allow(unused_imports)] use crate::vg::*;\n"); }
        for it in &m.items { if let Item::Use(u) = it { if use_keep(&u.tree) { let mut u = u.clone(); u.attrs.clear(); u.vis = parse_quote!(pub); self.out.tokens(quote!(#[allow(unused_imports)] #u), true); self.out.nl(); } } }
        for it in &m.items { self.item(&path, it.clone()); }
        for (mp, name, ty, init) in self.ctx.static_items.clone() { if mp == path { self.static_item(&path, &name, ty, init); } }
        for s in &m.subs { self.module(s); }
        let gf = format!("{}/{}.rs", self.glue, if path.is_empty() { "root".to_string() } else { path.replace("::", ".") });
        if let Ok(g) = std::fs::read_to_string(&gf) { self.out.nl(); self.out.raw("// ---- glue (hand written; see DESIGN.md) ----\n"); let a = self.out.line; self.out.raw(&g); let b = self.out.line; self.out.labels.push((a, b, format!("glue|{}", gf))); }
        if !path.is_empty() { self.out.nl(); self.out.raw("}\n"); }
        let _ = &self.base;
    }
    fn static_item(&mut self, path: &str, name: &str, mut ty: Type, init: Expr) {
        tx::fix_type(&mut ty, self.ctx);
        let key = qual(path, &format!("static {}", name));
        let ann = self.ctx.anns.get(&key).cloned();
        if let Some(a) = self.ctx.anns.get_mut(&key) { a.used = true; }
        let f = format!("vx_static_{}", name);
        let ens = ann.as_ref().map(|a| a.ens.iter().map(|c| c.text.clone()).collect::<Vec<_>>().join(", ")).unwrap_or_default();
        let t = ty.to_token_stream().to_string();
        self.out.nl();
        self.out.raw(&format!("#[verifier::external_body] pub fn {}() -> (r: &'static {}) {} {{ unimplemented!() }}\n", f, t, if ens.is_empty() { String::new() } else { format!("ensures {}", ens) }));
        // the initialiser is verified as an ordinary function
        let fi: ItemFn = parse_str(&format!("pub fn vx_init_{}() -> {} {{ {} }}", name, t, init.to_token_stream())).unwrap();
        let nm = qual(path, &format!("vx_init_{}", name));
        self.func(path, nm, fi, None, None);
    }
    fn item(&mut self, path: &str, it: Item) {
        match it {
            Item::Use(_) => {}
            Item::Const(mut c) => { c.attrs.clear(); c.vis = parse_quote!(pub); self.out.nl(); self.out.tokens(c.to_token_stream(), true); }
            Item::Type(mut t) => { t.attrs.clear(); t.vis = parse_quote!(pub); tx::fix_type(&mut t.ty, self.ctx); self.out.nl(); self.out.tokens(t.to_token_stream(), true); }
            Item::Enum(mut e) => {
                let copy = e.attrs.iter().any(|a| norm(a).contains("Copy"));
                e.attrs.clear(); e.vis = parse_quote!(pub);
                for v in e.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); tx::fix_type(&mut f.ty, self.ctx); } }
                if copy { e.attrs.push(parse_quote!(#[derive(Clone, Copy)])); }
                self.out.nl(); self.out.tokens(e.to_token_stream(), true);
            }
            Item::Struct(mut s) => {
                let copy = s.attrs.iter().any(|a| norm(a).contains("Copy"));
                s.attrs.clear(); s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); tx::fix_type(&mut f.ty, self.ctx); }
                if copy { s.attrs.push(parse_quote!(#[derive(Clone, Copy)])); }
                self.out.nl(); self.out.tokens(s.to_token_stream(), true);
            }
            Item::Fn(f) => { let n = qual(path, &f.sig.ident.to_string()); self.func(path, n, f, None, None); }
            Item::Trait(_) => { self.ctx.rule("R-TRAIT drop trait declaration (methods become functions)"); }
            Item::Impl(im) => {
                let ty = norm(&im.self_ty);
                for ii in im.items.clone() {
                    if let ImplItem::Fn(f) = ii {
                        let fi = ItemFn { attrs: vec![], vis: parse_quote!(pub), sig: f.sig.clone(), block: Box::new(f.block.clone()) };
                        let n = match &im.trait_ { Some((_, p, _)) => format!("<{} as {}>::{}", ty, norm(p), f.sig.ident), None => format!("{}::{}", ty, f.sig.ident) };
                        self.func(path, qual(path, &n), fi, Some((*im.self_ty).clone()), Some(im.clone()));
                    }
                }
            }
            o => self.ctx.problems.push((path.to_string(), format!("item not supported: {}", o.to_token_stream().to_string().chars().take(60).collect::<String>()))),
        }
    }
    fn func(&mut self, path: &str, name: String, mut f: ItemFn, self_ty: Option<Type>, im: Option<ItemImpl>) {
        let hash = { let s = norm(&f.sig) + &norm(&f.block); let mut h: u64 = 0xcbf29ce484222325; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } h };
        let ann = self.ctx.anns.get(&name).cloned();
        if let Some(a) = self.ctx.anns.get_mut(&name) { a.used = true; }
        let mut info = FnInfo { name: name.clone(), emitted: String::new(), contract: ann.as_ref().map_or(false, |a| a.skip.is_none()), props: ann.as_ref().map_or(vec![], |a| a.props.clone()), hash, skipped: None, first: 0, last: 0, external: false };
        if let Some(a) = &ann { if let Some(s) = &a.skip { info.skipped = Some(s.clone()); self.ctx.info.push(info); return; } }
        let sigs = norm(&f.sig);
        if ann.is_some() && expand::closure_params(&mut f) { self.ctx.rule("R-FNMUT callback parameter as the sequence of its calls"); }
        if ann.is_none() {
            if sigs.contains("FnMut(") || sigs.contains("Fn(") || sigs.contains("Iter<") || name.ends_with("::fmt") || name.contains(" as Debug>") { info.skipped = Some("no contract, outside the supported subset".into()); self.ctx.info.push(info); return; }
        }
        if ann.is_none() { if let Some(i) = &im { if let Some((_, p, _)) = &i.trait_ { let t = p.segments.last().unwrap().ident.to_string(); if ["Clone", "PartialEq", "Drop", "Hash", "Deref", "Add", "Ord", "PartialOrd"].contains(&t.as_str()) { self.ctx.problems.push((name.clone(), format!("impl {} without a contract", t))); } } } }
        let a = ann.clone().unwrap_or_default();
        f.attrs.clear(); f.vis = parse_quote!(pub);
        let trait_name = im.as_ref().and_then(|i| i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string()));
        // assoc types of the impl
        let mut assoc: BTreeMap<String, Type> = BTreeMap::new();
        if let Some(i) = &im { for ii in &i.items { if let ImplItem::Type(t) = ii { assoc.insert(t.ident.to_string(), t.ty.clone()); } } }
        let inherent_traits = ["ReferenceType", "Iterator", "Default"];
        let mut header: Option<String> = None;
        let orig_ident = f.sig.ident.to_string();
        match (&trait_name, &self_ty) {
            (None, None) => {}
            (None, Some(t)) => header = Some(format!("impl {}", t.to_token_stream())),
            (Some(tn), Some(t)) if inherent_traits.contains(&tn.as_str()) => { self.ctx.rule("R-TRAITINH trait method as inherent method"); header = Some(format!("impl {}", t.to_token_stream())); }
            (Some(tn), Some(t)) => {
                if let Some(h) = &a.in_impl {
                    let gens = &im.as_ref().unwrap().generics;
                    header = Some(format!("impl {} {} for {}", gens.to_token_stream(), h, t.to_token_stream()));
                    let nn = match orig_ident.as_str() { "eq" => "vx_eq", "from" => "vx_from", o => o }.to_string();
                    f.sig.ident = Ident::new(&nn, proc_macro2::Span::call_site()); f.vis = Visibility::Inherited;
                    self.ctx.rule("R-TRAITMAP trait impl under the shim trait of the same role");
                } else {
                    let san: String = norm(t).chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
                    let tr: String = norm(&im.as_ref().unwrap().trait_.as_ref().unwrap().1).chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
                    f.sig.ident = Ident::new(&format!("{}__{}__{}", orig_ident, tr, san), proc_macro2::Span::call_site());
                    self.ctx.rule("R-TRAITFN trait method as free function");
                    tx::self_to_free(&mut f, t);
                    let _ = tn;
                }
            }
            (Some(_), None) => unreachable!(),
        }
        tx::subst_assoc(&mut f, &assoc);
        let nproblems = self.ctx.problems.len();
        let emitted = f.sig.ident.to_string();
        // body
        let external = a.external;
        let mut t = tx::Tx::new(self.ctx, &name, &a, path, self_ty.as_ref());
        t.function(&mut f);
        let (nl, ni) = (t.loops, t.iters);
        drop(t);
        for k in a.loops.keys() { if *k > nl { self.ctx.lost.push((name.clone(), format!("loop {}", k))); } }
        for k in a.iters.keys() { if *k > ni { self.ctx.lost.push((name.clone(), format!("iter {}", k))); } }
        if ann.is_some() && !a.loops.is_empty() && nl > *a.loops.keys().max().unwrap() { self.ctx.lost.push((name.clone(), format!("{} loops where the contract knows {}", nl, a.loops.keys().max().unwrap()))); }
        if ann.is_some() && a.loops.is_empty() && nl > 0 { self.ctx.lost.push((name.clone(), "new loop".into())); }
        if ann.is_some() && ni > a.iters.keys().max().copied().unwrap_or(0) { self.ctx.lost.push((name.clone(), "new iterator chain".into())); }
        if std::env::var("VX_DEMOTE").map_or(false, |d| d.lines().any(|l| l == name)) { self.ctx.problems.push((name.clone(), "demoted by the runner".into())); }
        let bad = self.ctx.problems.len() > nproblems;
        // header
        self.out.nl();
        info.first = self.out.line;
        if let Some(h) = &header { self.out.raw(&format!("{} {{\n", h)); if let Some(s) = &a.spec_items { self.out.raw(s); self.out.raw("\n"); } }
        for at in &a.attrs { self.out.raw(at); self.out.raw("\n"); }
        if bad || external { self.out.raw("#[verifier::external_body]\n"); info.external = true; }
        self.out.marks = std::mem::take(&mut self.ctx.marks);
        // spec clause mark
        let mut m = Mark { text: String::new(), clauses: vec![] };
        let in_trait = a.in_impl.is_some();
        let mut add = |kw: &str, cs: &Vec<contract::Clause>, lab: &str| {
            if cs.is_empty() { return; }
            m.text.push_str(&format!("    {}\n", kw));
            for (i, c) in cs.iter().enumerate() { let a0 = m.text.matches('\n').count(); m.text.push_str(&format!("        {},\n", c.text)); let b0 = m.text.matches('\n').count() - 1; m.clauses.push((a0, b0, format!("{}|{}|{}|{}", lab, name, i + 1, c.tags.join(" ")))); }
        };
        if !in_trait { add("requires", &a.req, "req"); add("ensures", &a.ens, "ens"); }
        if let Some(d) = &a.dec { m.text.push_str(&format!("    decreases {}\n", d)); }
        let id = 1_000_000 + self.ctx.next_mark; self.ctx.next_mark += 1;
        self.out.marks.insert(id, m);
        if bad || external { f.block = parse_quote!({ unimplemented!() }); }
        let idl = proc_macro2::Literal::usize_unsuffixed(id);
        let stmts = &f.block.stmts;
        let b: Block = parse_quote!({ VX_FN!(#idl); #(#stmts)* });
        f.block = Box::new(b);
        if let Some(r) = &a.ret { if let ReturnType::Type(_, t) = &f.sig.output { let rn = Ident::new(r, proc_macro2::Span::call_site()); let t = t.clone(); f.sig.output = parse_quote!(-> VxRet!(#rn, #t)); } }
        self.out.tokens(f.to_token_stream(), true);
        if header.is_some() { self.out.nl(); self.out.raw("}\n"); }
        // the contract assumed of the shim method that stands for this function follows from this function's contract
        if !bad { for (i, l) in a.links.iter().enumerate() { let f0 = self.out.line; self.out.raw(&l.replace("$F", &emitted)); self.out.raw("\n"); let f1 = self.out.line; self.out.labels.push((f0, f1, format!("link|{}|{}|", name, i + 1))); } }
        info.last = self.out.line;
        info.emitted = emitted;
        self.ctx.info.push(info);
    }
}

pub fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (src, contracts, outf, mapf) = (&args[1], &args[2], &args[3], &args[4]);
    let anns = contract::load(contracts);
    let mut ctx = Ctx { anns, statics: Default::default(), static_items: vec![], macros: Default::default(), alias: Default::default(), fns: Default::default(), rules: Default::default(), problems: vec![], lost: vec![], marks: Default::default(), next_mark: 0, info: vec![] };
    let mut root = load_module(&format!("{}/lib.rs", src), src, "", &mut ctx);
    root.subs.retain(|m| m.path != "macros");
    // the clients of the public macros (hand written; see DESIGN.md), read like any other module of the crate
    let clients = format!("{}/clients.src", contracts);
    if std::path::Path::new(&clients).exists() { let m = load_module(&clients, src, "clients", &mut ctx); root.subs.push(m); }
    expand_impl_macros(&mut root, &mut ctx);
    collect_fns(&root, &mut ctx);
    tx::find_aliases(&root, &mut ctx);
    let mut out = Out::new();
    out.raw("#![allow(unused)]\n#![allow(dead_code)]\n#![allow(ambiguous_glob_reexports)]\n#![feature(allocator_api)]\n#![verifier::loop_isolation(false)]\n#![verifier::allow_complex_invariants]\nuse vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\n#[allow(unused_imports)] use vx::*;\n#[allow(unused_imports)] use sp::*;\n#[allow(unused_imports)] use vg::*;\n");
    for (m, f) in [("vx", "prelude.rs"), ("sp", "spec.rs")] {
        out.raw(&format!("pub mod {} {{\n", m));
        let a = out.line;
        let mut parts = vec![format!("{}/{}", contracts, f)];
        let stem = f.trim_end_matches(".rs");
        let mut more: Vec<String> = std::fs::read_dir(contracts).unwrap().filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).filter(|n| n.starts_with(&format!("{}_", stem)) && n.ends_with(".rs")).collect();
        more.sort();
        for n in more { parts.push(format!("{}/{}", contracts, n)); }
        for p in parts { out.raw(&std::fs::read_to_string(&p).unwrap()); out.raw("\n"); }
        out.labels.push((a, out.line, m.to_string()));
        out.raw("}\n");
    }
    let mut e = Emit { ctx: &mut ctx, out, glue: format!("{}/glue", contracts), base: String::new() };
    e.module(&root);
    let mut out = e.out;
    out.raw("\nfn main() {}\n} // verus!\n");
    std::fs::write(outf, &out.s).unwrap();
    let mut unused: Vec<String> = vec![];
    for (n, a) in &ctx.anns { if !a.used { unused.push(n.clone()); } }
    let mut j = String::from("{\n");
    j.push_str("\"functions\": [\n");
    let fs: Vec<String> = ctx.info.iter().map(|i| format!("{{\"name\":{},\"emitted\":{},\"contract\":{},\"props\":[{}],\"hash\":\"{:016x}\",\"skipped\":{},\"first\":{},\"last\":{},\"external\":{}}}", esc(&i.name), esc(&i.emitted), i.contract, i.props.iter().map(|p| esc(p)).collect::<Vec<_>>().join(","), i.hash, i.skipped.as_ref().map_or("null".into(), |s| esc(s)), i.first, i.last, i.external)).collect();
    j.push_str(&fs.join(",\n")); j.push_str("],\n\"labels\": [\n");
    j.push_str(&out.labels.iter().map(|(a, b, l)| format!("[{},{},{}]", a, b, esc(l))).collect::<Vec<_>>().join(",\n"));
    j.push_str("],\n\"rules\": {"); j.push_str(&ctx.rules.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    j.push_str("},\n\"problems\": ["); j.push_str(&ctx.problems.iter().map(|(k, v)| format!("[{},{}]", esc(k), esc(v))).collect::<Vec<_>>().join(","));
    j.push_str("],\n\"lost\": ["); j.push_str(&ctx.lost.iter().map(|(k, v)| format!("[{},{}]", esc(k), esc(v))).collect::<Vec<_>>().join(","));
    j.push_str("],\n\"unused_contracts\": ["); j.push_str(&unused.iter().map(|k| esc(k)).collect::<Vec<_>>().join(","));
    j.push_str("]}\n");
    std::fs::write(mapf, j).unwrap();
}
