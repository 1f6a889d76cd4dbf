//! Rewriting of function bodies into the Verus subset. Every rule is purely syntactic, applies to any
//! code of the given shape and is counted in the map (see DESIGN.md for what each rule means).
use crate::contract::{Clause, FnAnn};
use crate::printer::Mark;
use crate::{norm, Ctx, Module};
use proc_macro2::{Group, Ident, Literal, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ---------------------------------------------------------------- types
struct TyFix { rc: usize }
impl VisitMut for TyFix {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let last = p.path.segments.last().unwrap();
            if last.ident == "Rc" {
                if let PathArguments::AngleBracketed(a) = &last.arguments { if let Some(GenericArgument::Type(Type::Path(q))) = a.args.first() {
                    let l2 = q.path.segments.last().unwrap();
                    if l2.ident == "RefCell" { if let PathArguments::AngleBracketed(b) = &l2.arguments { if let Some(GenericArgument::Type(i)) = b.args.first() { let i = i.clone(); self.rc += 1; *t = i; return; } } }
                } }
            }
        }
        if let Type::Path(p) = t { for s in p.path.segments.iter_mut() { if s.ident == "Chars" || s.ident == "Formatter" || s.ident == "Peekable" {
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                let keep: Vec<GenericArgument> = a.args.iter().filter(|x| !matches!(x, GenericArgument::Lifetime(_))).cloned().collect();
                if keep.is_empty() { s.arguments = PathArguments::None } else { a.args = keep.into_iter().collect(); }
            }
        } } }
    }
}
pub fn fix_type(t: &mut Type, ctx: &mut Ctx) { let mut f = TyFix { rc: 0 }; f.visit_type_mut(t); for _ in 0..f.rc { ctx.rule("R-RCCELL Rc<RefCell<T>> as T (sharing discipline checked by R-ALIAS)"); } }

// ---------------------------------------------------------------- aliasing of CharStream handles
struct CallScan<'a> { name: &'a str, pos: usize, clone: usize, other: usize }
impl<'ast, 'a> Visit<'ast> for CallScan<'a> {
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func { if p.path.segments.last().unwrap().ident == self.name { if let Some(a) = c.args.iter().nth(self.pos) { if is_clone(a).is_some() { self.clone += 1 } else { self.other += 1 } } } }
        visit::visit_expr_call(self, c);
    }
}
use syn::visit;
fn is_clone(e: &Expr) -> Option<&Expr> { if let Expr::MethodCall(m) = e { if m.method == "clone" && m.args.is_empty() { return Some(&m.receiver) } } None }
fn is_stream_ty(t: &Type) -> bool { matches!(t, Type::Path(p) if p.path.segments.last().unwrap().ident == "CharStream") }
pub fn find_aliases(_root: &Module, ctx: &mut Ctx) {
    let mut alias: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (name, (self_ty, f)) in ctx.fns.clone() {
        if self_ty.is_some() { continue; }
        for (i, a) in f.sig.inputs.iter().enumerate() {
            if let FnArg::Typed(t) = a { if is_stream_ty(&t.ty) {
                let short = f.sig.ident.to_string();
                let mut s = CallScan { name: &short, pos: i, clone: 0, other: 0 };
                for (_, g) in ctx.fns.values() { s.visit_item_fn(g); }
                if s.clone > 0 && s.other == 0 { alias.entry(short).or_default().push(i); ctx.rule("R-ALIAS by-value clone of a shared stream handle as &mut"); }
                else if s.clone > 0 { ctx.problems.push((name.clone(), "stream parameter sometimes shared, sometimes owned".into())); }
            } }
        }
    }
    ctx.alias = alias;
}

// ---------------------------------------------------------------- self to a named parameter
fn map_tokens(ts: TokenStream, f: &dyn Fn(&Ident, bool) -> Option<TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Ident(id) => {
                let path_next = matches!((v.get(i + 1), v.get(i + 2)), (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b))) if a.as_char() == ':' && b.as_char() == ':');
                match f(id, path_next) { Some(t) => out.extend(t), None => out.extend([v[i].clone()]) }
            }
            TokenTree::Group(g) => { let mut ng = Group::new(g.delimiter(), map_tokens(g.stream(), f)); ng.set_span(g.span()); out.extend([TokenTree::Group(ng)]); }
            t => out.extend([t.clone()]),
        }
    }
    out
}
fn map_tokens_ctx(ts: TokenStream, f: &dyn Fn(&Ident, bool, bool, bool) -> Option<TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let p = |t: Option<&TokenTree>, c: char| matches!(t, Some(TokenTree::Punct(x)) if x.as_char() == c);
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Ident(id) => {
                let path_next = p(v.get(i + 1), ':') && p(v.get(i + 2), ':') || p(v.get(i + 1), '!') && !p(v.get(i + 2), '=');
                let prev = i > 0 && (p(v.get(i - 1), '.') && !(i > 1 && p(v.get(i - 2), '.')) || i > 1 && p(v.get(i - 1), ':') && p(v.get(i - 2), ':'));
                let call = matches!(v.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis);
                match f(id, prev, path_next, call) { Some(t) => out.extend(t), None => out.extend([v[i].clone()]) }
            }
            TokenTree::Group(g) => { let mut ng = Group::new(g.delimiter(), map_tokens_ctx(g.stream(), f)); ng.set_span(g.span()); out.extend([TokenTree::Group(ng)]); }
            t => out.extend([t.clone()]),
        }
    }
    out
}
struct NoLife;
impl VisitMut for NoLife { fn visit_type_reference_mut(&mut self, t: &mut TypeReference) { if let Some(l) = &t.lifetime { if l.ident != "static" { t.lifetime = None; } } visit_mut::visit_type_reference_mut(self, t); } }
pub fn self_to_free(f: &mut ItemFn, t: &Type) {
    let mut ty = t.clone(); NoLife.visit_type_mut(&mut ty);
    if let Some(FnArg::Receiver(r)) = f.sig.inputs.first() {
        let m = r.mutability.is_some(); let rf = r.reference.is_some();
        let a: FnArg = if rf && m { parse_quote!(vx_self: &mut #ty) } else if rf { parse_quote!(vx_self: &#ty) } else { parse_quote!(vx_self: #ty) };
        f.sig.inputs[0] = a;
    }
    let tyt = ty.to_token_stream();
    let g = |id: &Ident, path: bool| -> Option<TokenStream> { if id == "self" && !path { Some(quote!(vx_self)) } else if id == "Self" { Some(tyt.clone()) } else { None } };
    let sig = map_tokens(f.sig.to_token_stream(), &g); let blk = map_tokens(f.block.to_token_stream(), &g);
    if let (Ok(s), Ok(b)) = (parse2::<Signature>(sig), parse2::<Block>(blk)) { f.sig = s; f.block = Box::new(b); }
    for a in f.sig.inputs.iter_mut() { if let FnArg::Typed(t) = a { NoLife.visit_type_mut(&mut t.ty); } }
}
pub fn subst_assoc(f: &mut ItemFn, m: &BTreeMap<String, Type>) {
    struct S<'a>(&'a BTreeMap<String, Type>);
    impl<'a> VisitMut for S<'a> { fn visit_type_mut(&mut self, t: &mut Type) { visit_mut::visit_type_mut(self, t); if let Type::Path(p) = t { let s = &p.path.segments; if s.len() == 2 && s[0].ident == "Self" { if let Some(x) = self.0.get(&s[1].ident.to_string()) { *t = x.clone(); } } } } }
    // after self_to_free `Self::Err` has become `Type::Err`
    struct S2<'a>(&'a BTreeMap<String, Type>);
    impl<'a> VisitMut for S2<'a> { fn visit_type_mut(&mut self, t: &mut Type) { visit_mut::visit_type_mut(self, t); if let Type::Path(p) = t { let s = &p.path.segments; if s.len() >= 2 && p.qself.is_none() { let l = s.last().unwrap(); if l.arguments.is_empty() { if let Some(x) = self.0.get(&l.ident.to_string()) { if ["Err", "Error", "Item", "Output"].contains(&l.ident.to_string().as_str()) && norm(&s[0].ident) != "io" && norm(&s[0].ident) != "fmt" { *t = x.clone(); } } } } } } }
    if m.is_empty() { return; }
    S(m).visit_signature_mut(&mut f.sig); S(m).visit_block_mut(&mut f.block);
    S2(m).visit_signature_mut(&mut f.sig);
}

// ---------------------------------------------------------------- bodies
pub struct Tx<'a> {
    ctx: &'a mut Ctx, name: String, ann: FnAnn, path: String, self_mut: bool, opt_ret: bool, // the function returns an Option
    pub loops: usize, pub iters: usize,
    expect: Option<Type>,
    stream_refs: BTreeSet<String>, // parameters that are references to streams
    calls_seen: BTreeMap<String, usize>,
    anchors_hit: BTreeSet<usize>,
    pending: Vec<(usize, bool)>, // anchors met in the statement being visited: (mark, before?)
    uniq: usize,
    strs: BTreeSet<String>,
}

fn vid(p: &str, k: usize) -> Ident { format_ident!("vx_{}{}", p, k) }
fn lit(k: usize) -> Literal { Literal::usize_unsuffixed(k) }
fn stringlit(e: &Expr) -> Option<String> { if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = e { Some(s.value()) } else { None } }
fn strip_ref(p: &mut Pat) { struct R; impl VisitMut for R { fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { p.by_ref = None; visit_mut::visit_pat_ident_mut(self, p) } } R.visit_pat_mut(p) }
fn simple_lit(e: &Expr) -> bool { match e { Expr::Lit(l) => !matches!(l.lit, Lit::Str(_)), Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)) && simple_lit(&u.expr), Expr::Paren(p) => simple_lit(&p.expr), Expr::Group(p) => simple_lit(&p.expr), _ => false } }
fn contains_try(e: &Expr) -> bool { struct T(bool); impl<'a> Visit<'a> for T { fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true } fn visit_expr_closure(&mut self, _: &'a ExprClosure) {} } let mut t = T(false); t.visit_expr(e); t.0 }

enum Adapt { Zip(Expr), Skip(Expr), Map(ExprClosure), MapPath(Expr), Cloned }
struct Chain { base: Expr, chars: bool, adapts: Vec<Adapt>, rev: bool }
fn chain_of(e: &Expr) -> Option<Chain> {
    match e {
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "iter" if m.args.is_empty() => Some(Chain { base: (*m.receiver).clone(), chars: false, adapts: vec![], rev: false }),
            "chars" if m.args.is_empty() => Some(Chain { base: (*m.receiver).clone(), chars: true, adapts: vec![], rev: false }),
            "zip" => { let mut c = chain_of(&m.receiver)?; let o = match &m.args[0] { Expr::MethodCall(q) if q.method == "iter" => (*q.receiver).clone(), Expr::Reference(r) => (*r.expr).clone(), Expr::Path(p) => Expr::Path(p.clone()), _ => return None }; c.adapts.push(Adapt::Zip(o)); Some(c) }
            "skip" => { let mut c = chain_of(&m.receiver)?; c.adapts.push(Adapt::Skip(m.args[0].clone())); Some(c) }
            "cloned" | "copied" => { let mut c = chain_of(&m.receiver)?; c.adapts.push(Adapt::Cloned); Some(c) }
            "rev" => { let mut c = chain_of(&m.receiver)?; if c.adapts.is_empty() && !c.rev { c.rev = true; Some(c) } else { None } }
            "map" => { let mut c = chain_of(&m.receiver)?; match &m.args[0] { Expr::Closure(cl) => c.adapts.push(Adapt::Map(cl.clone())), p @ Expr::Path(_) => c.adapts.push(Adapt::MapPath(p.clone())), _ => return None }; Some(c) }
            _ => None,
        },
        Expr::Paren(p) => chain_of(&p.expr),
        _ => None,
    }
}

impl<'a> Tx<'a> {
    pub fn new(ctx: &'a mut Ctx, name: &str, ann: &FnAnn, path: &str, _self_ty: Option<&Type>) -> Self {
        Tx { ctx, name: name.to_string(), ann: ann.clone(), path: path.to_string(), self_mut: false, opt_ret: false, loops: 0, iters: 0, expect: None, stream_refs: Default::default(), calls_seen: Default::default(), anchors_hit: Default::default(), pending: vec![], uniq: 0, strs: Default::default() }
    }
    fn problem(&mut self, p: &str) { self.ctx.problems.push((self.name.clone(), p.to_string())); }
    fn rule(&mut self, r: &str) { self.ctx.rule(r) }
    fn un(&mut self) -> usize { self.uniq += 1; self.uniq }

    fn proof_mark(&mut self, text: &str, what: &str) -> usize {
        let mut t = String::new(); let mut body = String::new();
        for l in text.lines() { if l.trim_start().starts_with("let ghost") && body.is_empty() { t.push_str(l); t.push('\n'); } else { body.push_str(l); body.push('\n'); } }
        if !body.trim().is_empty() { t.push_str("proof {\n"); t.push_str(&body); t.push_str("}\n"); }
        let n = t.matches('\n').count().max(1);
        self.ctx.add_mark(Mark { text: t, clauses: vec![(0, n - 1, format!("proof|{}|{}", self.name, if what.contains('|') { what.to_string() } else { format!("{}|", what) }))] })
    }
    fn proof_stmt(&mut self, text: &Option<String>, what: &str) -> TokenStream {
        // the reachability (vacuity) run: this point must be reachable, so `assert(false)` must fail here
        let probe = match std::env::var("VX_VACUITY") { Ok(v) if what.split('|').next() == Some(v.as_str()) || (what.starts_with("loop ") && what.ends_with(&format!(" {}", v))) => Some(format!("{} assert(false);", text.clone().unwrap_or_default())), _ => None };
        if let Some(t) = probe { let m = lit(self.proof_mark(&t, &format!("vacuity {}", what))); return quote!(VX_PROOF!(#m);); }
        match text { Some(t) => { let m = lit(self.proof_mark(t, what)); quote!(VX_PROOF!(#m);) } None => quote!() } }
    fn inv_mark(&mut self, what: &str, auto: &[String], inv: &[Clause], xinv: &[Clause], ens: &[Clause], dec: &str) -> Literal {
        let mut m = Mark { text: String::new(), clauses: vec![] };
        let name = self.name.clone();
        let mut line = 0usize;
        let mut push = |m: &mut Mark, kw: &str, cs: Vec<(String, String)>| {
            if cs.is_empty() { return; }
            m.text.push_str(&format!("    {}\n", kw)); line += 1;
            for (c, l) in cs { let n = c.matches('\n').count() + 1; m.text.push_str(&format!("        {},\n", c)); m.clauses.push((line, line + n - 1, l)); line += n; }
        };
        let mk = |cs: &[Clause], k: &str| -> Vec<(String, String)> { cs.iter().enumerate().map(|(i, c)| (c.text.clone(), format!("{}|{}|{}.{}|{}", k, name, what, i + 1, c.tags.join(" ")))).collect() };
        push(&mut m, "invariant_except_break", mk(xinv, "xinv"));
        let mut a: Vec<(String, String)> = auto.iter().map(|t| (t.clone(), format!("inv|{}|{}.auto|", name, what))).collect();
        a.extend(mk(inv, "inv"));
        push(&mut m, "invariant", a);
        push(&mut m, "ensures", mk(ens, "lens"));
        if !dec.is_empty() { push(&mut m, "decreases", vec![(dec.to_string(), format!("dec|{}|{}|C12", name, what))]); }
        lit(self.ctx.add_mark(m))
    }

    pub fn function(&mut self, f: &mut ItemFn) {
        // names that mean something else to the verifier
        const KW: [&str; 24] = ["int", "nat", "real", "spec", "proof", "exec", "ghost", "tracked", "open", "closed", "choose", "assume", "forall", "exists", "requires", "ensures", "invariant", "decreases", "recommends", "via", "when", "returns", "by", "broadcast"];
        let blk = map_tokens_ctx(f.block.to_token_stream(), &|id, prev_dot, path_next, call| { let s = id.to_string(); if !prev_dot && !path_next && !call && KW.contains(&s.as_str()) { Some(format_ident!("vx_{}", s).to_token_stream()) } else { None } });
        if let Ok(b) = parse2::<Block>(blk) { f.block = Box::new(b); }
        for a in f.sig.inputs.iter_mut() { if let FnArg::Typed(t) = a { if let Pat::Ident(p) = &mut *t.pat { if KW.contains(&p.ident.to_string().as_str()) { p.ident = format_ident!("vx_{}", p.ident); } } } }
        // signature
        let short = f.sig.ident.to_string();
        let al = self.ctx.alias.get(&short).cloned().unwrap_or_default();
        for (i, a) in f.sig.inputs.iter_mut().enumerate() {
            match a {
                FnArg::Receiver(r) => { self.self_mut = r.mutability.is_some(); }
                FnArg::Typed(t) => {
                    if al.contains(&i) && is_stream_ty(&t.ty) { *t.ty = parse_quote!(&mut CharStream); if let Pat::Ident(p) = &mut *t.pat { p.mutability = None; } }
                    let mut fx = TyFix { rc: 0 }; fx.visit_type_mut(&mut t.ty);
                    if let Type::Reference(r) = &*t.ty { if is_stream_ty(&r.elem) { if let Pat::Ident(p) = &*t.pat { self.stream_refs.insert(p.ident.to_string()); } } }
                    if norm(&*t.pat) == "vx_self" { if let Type::Reference(r) = &*t.ty { self.self_mut = r.mutability.is_some(); } }
                }
            }
        }
        if let ReturnType::Type(_, t) = &mut f.sig.output {
            let mut fx = TyFix { rc: 0 }; fx.visit_type_mut(t);
            if let Type::Path(p) = &**t { self.opt_ret = p.path.segments.last().map_or(false, |x| x.ident == "Option"); }
        }
        f.sig.constness = None;
        // body
        let mut b = (*f.block).clone();
        self.visit_block_mut(&mut b);
        let entry = self.proof_stmt(&self.ann.entry.clone(), "entry");
        let mut tail = self.ann.tail.clone();
        if tail.is_none() && std::env::var("VX_VACUITY").as_deref() == Ok("tail") { tail = Some(String::new()); }
        let mut stmts = b.stmts;
        if let Some(t) = tail {
            let pm = self.proof_stmt(&Some(t), &if self.ann.tail_tags.is_empty() { "tail".to_string() } else { format!("tail|{}", self.ann.tail_tags.join(" ")) });
            let ps: Stmt = parse2(pm).unwrap();
            match stmts.last() {
                Some(Stmt::Expr(e, None)) if !matches!(f.sig.output, ReturnType::Default) => {
                    let e = e.clone(); let n = stmts.len() - 1;
                    let t = match &f.sig.output { ReturnType::Type(_, t) => (**t).clone(), _ => unreachable!() };
                    stmts[n] = parse_quote!(let vx_ret: #t = #e;);
                    stmts.push(ps); stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
                }
                Some(Stmt::Expr(_, None)) => { let n = stmts.len() - 1; stmts.insert(n, ps); }
                _ => stmts.push(ps),
            }
        }
        let rev: Vec<TokenStream> = Vec::new();
        f.block = parse_quote!({ #entry #(#rev)* #(#stmts)* });
        for (i, (before, callee, ord, _, _)) in self.ann.calls.clone().iter().enumerate() {
            if !self.anchors_hit.contains(&i) { self.ctx.lost.push((self.name.clone(), format!("{} {} {}", if *before { "before" } else { "after" }, callee, ord))); }
        }
    }

    fn note_call(&mut self, name: &str) {
        let n = { let e = self.calls_seen.entry(name.to_string()).or_insert(0); *e += 1; *e };
        for (i, (before, callee, ord, text, tags)) in self.ann.calls.clone().iter().enumerate() {
            if callee == name && (*ord == n || *ord == 0) { self.anchors_hit.insert(i); let m = self.proof_mark(text, &format!("{} {} {}|{}", if *before { "before" } else { "after" }, callee, ord, tags.join(" "))); self.pending.push((m, *before)); }
        }
    }
    fn wrap_pending(&mut self, e: Expr, from: usize) -> Expr {
        let p: Vec<(usize, bool)> = self.pending.drain(from..).collect();
        if p.is_empty() { return e; }
        let bef: Vec<Literal> = p.iter().filter(|x| x.1).map(|x| lit(x.0)).collect();
        let aft: Vec<Literal> = p.iter().filter(|x| !x.1).map(|x| lit(x.0)).collect();
        if aft.is_empty() { parse_quote!({ #(VX_PROOF!(#bef);)* #e }) } else { let v = vid("t", self.un()); parse_quote!({ #(VX_PROOF!(#bef);)* let #v = #e; #(VX_PROOF!(#aft);)* #v }) }
    }

    // --- closures
    fn closure_parts(&mut self, e: &Expr, n: usize) -> Option<(Vec<Pat>, Expr)> {
        if let Expr::Closure(c) = e { if c.inputs.len() == n { let ps = c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect(); return Some((ps, (*c.body).clone())); } }
        None
    }

    // --- iterator chains
    fn chain(&mut self, c: Chain, term: &str, args: Vec<Expr>, ty: Option<Type>) -> Option<Expr> {
        self.iters += 1; let k = self.iters;
        let ann = self.ann.iters.get(&k).cloned().unwrap_or_default();
        let (a, b, i, r) = (vid("a", k), vid("b", k), vid("i", k), vid("r", k));
        let mut base = c.base.clone();
        self.rule("R-ITER iterator chain as index loop");
        if c.rev { self.problem("rev()"); return None; }
        self.visit_expr_mut(&mut base);
        let mut zip: Option<Expr> = None; let mut skip: Option<Expr> = None; let mut maps: Vec<(Vec<Pat>, Expr)> = vec![]; let mut cloned = false;
        for ad in c.adapts {
            match ad {
                Adapt::Zip(mut z) => { if zip.is_some() || skip.is_some() || !maps.is_empty() { self.problem("iterator chain shape"); return None; } self.visit_expr_mut(&mut z); zip = Some(z); }
                Adapt::Skip(mut s) => { if skip.is_some() || zip.is_some() || !maps.is_empty() { self.problem("iterator chain shape"); return None; } self.visit_expr_mut(&mut s); skip = Some(s); }
                Adapt::Map(cl) => { let p = cl.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect(); maps.push((p, (*cl.body).clone())); }
                Adapt::MapPath(p) => { maps.push((vec![parse_quote!(vx_p)], parse_quote!(#p(vx_p)))); }
                Adapt::Cloned => cloned = true,
            }
        }
        let elem: Expr = if zip.is_some() { parse_quote!((&#a[#i], &#b[#i])) } else if cloned { parse_quote!(#a[#i].clone()) } else if c.chars { parse_quote!(#a[#i]) } else { parse_quote!(&#a[#i]) };
        let inits = { let s = if c.chars { quote!(let #a = (#base).vx_chars_vec();) } else { quote!(let #a = (#base).vx_sl();) }; match &zip { Some(z) => quote!(#s let #b = (#z).vx_sl();), None => s } };
        let start = match &skip { Some(s) => quote!(let mut #i: usize = if (#s) < #a.len() { #s } else { #a.len() };), None => quote!(let mut #i: usize = 0;) };
        let cond = if zip.is_some() { quote!(#i < #a.len() && #i < #b.len()) } else { quote!(#i < #a.len()) };
        let mut auto = vec![format!("{} <= {}@.len()", i, a)];
        if zip.is_some() { auto.push(format!("{} <= {}@.len()", i, b)); }
        let dec = format!("{}@.len() - {}", a, i);
        let sp = |p: &str, j: &str| -> String { p.replace("$x", &format!("{}@[{}]", a, j)).replace("$a", &format!("{}@[{}]", a, j)).replace("$b", &format!("{}@[{}]", b, j)) };
        let before = self.proof_stmt(&ann.before, &format!("iter {} before", k)); let begin = self.proof_stmt(&ann.begin, &format!("iter {} begin", k)); let end = self.proof_stmt(&ann.end, &format!("iter {} end", k)); let after = self.proof_stmt(&ann.after, &format!("iter {} after", k));
        let what = format!("iter {}", k);
        // element binding after maps
        let mut binds = quote!(); let mut cur: Expr = elem;
        let has_maps = !maps.is_empty();
        for (n, (mut ps, mut body)) in maps.into_iter().enumerate() {
            if ps.len() != 1 { self.problem("closure arity"); return None; }
            if !c.chars && n == 0 { strip_ref(&mut ps[0]); }
            self.visit_expr_mut(&mut body);
            let m = format_ident!("vx_m{}_{}", k, n); let p = &ps[0];
            binds = quote!(#binds let #m = { let #p = #cur; #body };);
            cur = parse_quote!(#m);
        }
        let j = format!("vx_j{}", k);
        let e: Expr = match term {
            "any" | "all" | "position" => {
                let (mut ps, mut body) = self.closure_parts(&args[0], 1).or_else(|| { if let Expr::Path(_) = &args[0] { let f = &args[0]; Some((vec![parse_quote!(vx_p)], parse_quote!(#f(vx_p)))) } else { None } })?;
                if !c.chars && !has_maps { strip_ref(&mut ps[0]); }
                self.visit_expr_mut(&mut body);
                let p = &ps[0];
                let any = term != "all";
                if let Some(pr) = &ann.pred { if !has_maps {
                    let (pj, neg) = (sp(pr, &j), !any);
                    let trig = format!("#![trigger {}@[{}]]", a, j);
                    let t = if neg { format!("({})", pj) } else { format!("!({})", pj) }; let u = if neg { format!("!({})", pj) } else { format!("({})", pj) };
                    let lo = match &skip { Some(s) => norm(s), None => "0".into() };
                    let (rt, rf) = if neg { (r.to_string(), format!("!{}", r)) } else { (format!("!{}", r), r.to_string()) };
                    auto.push(format!("{} ==> forall|{}: int| {} {} <= {} < {} ==> {}", rt, j, trig, lo, j, i, t));
                    auto.push(format!("{} ==> exists|{}: int| {} {} <= {} < {} && {}", rf, j, trig, lo, j, i, u));
                } }
                let m = self.inv_mark(&what, &auto, &ann.inv, &[], &[], &dec);
                if term == "position" { parse_quote!({ #inits #start let mut #r = false; #before while #cond && !#r { VX_INV!(#m); #begin #binds let #p = #cur; #i += 1; #r = #body; #end } #after if #r { Some(#i - 1) } else { None } }) }
                else if any { parse_quote!({ #inits #start let mut #r = false; #before while #cond && !#r { VX_INV!(#m); #begin #binds let #p = #cur; #i += 1; #r = #body; #end } #after #r }) }
                else { parse_quote!({ #inits #start let mut #r = true; #before while #cond && #r { VX_INV!(#m); #begin #binds let #p = #cur; #i += 1; #r = #body; #end } #after #r }) }
            }
            "find" => {
                if has_maps || zip.is_some() || c.chars { self.problem("find shape"); return None; }
                let (mut ps, mut body) = self.closure_parts(&args[0], 1)?;
                strip_ref(&mut ps[0]);
                self.visit_expr_mut(&mut body);
                let p = &ps[0]; let x = vid("x", k);
                if let Some(pr) = &ann.pred {
                    let trig = format!("#![trigger {}@[{}]]", a, j);
                    auto.push(format!("{} is None ==> forall|{}: int| {} 0 <= {} < {} ==> !({})", r, j, trig, j, i, sp(pr, &j)));
                    auto.push(format!("{} is Some ==> {} > 0 && *{}->Some_0 == {}@[{} - 1] && ({}) && forall|{}: int| {} 0 <= {} < {} - 1 ==> !({})", r, i, r, a, i, sp(pr, &format!("{} - 1", i)), j, trig, j, i, sp(pr, &j)));
                }
                let m = self.inv_mark(&what, &auto, &ann.inv, &[], &[], &dec);
                parse_quote!({ #inits #start let mut #r = vx_none_of(#a); #before while #cond && #r.is_none() { VX_INV!(#m); #begin let #x = #cur; #i += 1; let vx_hit = { let #p = #x; #body }; if vx_hit { #r = Some(#x); } #end } #after #r })
            }
            "collect" => {
                let t = match ty { Some(t) => t, None => { self.problem("collect without a declared type"); return None; } };
                let tn = norm(&t); let o = vid("o", k);
                if tn.starts_with("Vec<") {
                    let m = self.inv_mark(&what, &auto, &ann.inv, &[], &[], &dec);
                    parse_quote!({ #inits #start let mut #o: #t = Vec::new(); #before while #cond { VX_INV!(#m); #begin #binds let vx_e = #cur; #i += 1; #o.push(vx_e); #end } #after #o })
                } else if tn.starts_with("Option<Vec<") {
                    let inner = if let Type::Path(p) = &t { if let PathArguments::AngleBracketed(x) = &p.path.segments.last().unwrap().arguments { if let Some(GenericArgument::Type(q)) = x.args.first() { q.clone() } else { return None } } else { return None } } else { return None };
                    let m = self.inv_mark(&what, &auto, &ann.inv, &[], &[], &dec);
                    parse_quote!({ #inits #start let mut #o: #inner = Vec::new(); let mut #r = true; #before while #cond && #r { VX_INV!(#m); #begin #binds let vx_e = #cur; #i += 1; match vx_e { Some(vx_v) => { #o.push(vx_v); } None => { #r = false; } } #end } #after if #r { Some(#o) } else { None } })
                } else if tn == "String" && c.chars || tn == "String" {
                    let m = self.inv_mark(&what, &auto, &ann.inv, &[], &[], &dec);
                    parse_quote!({ #inits #start let mut #o: String = String::new(); #before while #cond { VX_INV!(#m); #begin #binds let vx_e = #cur; #i += 1; vx_e.vx_push_to(&mut #o); #end } #after #o })
                } else { self.problem("collect into an unsupported type"); return None; }
            }
            "fold" => {
                let mut init = args[0].clone(); self.visit_expr_mut(&mut init);
                let (mut ps, mut body) = self.closure_parts(&args[1], 2)?;
                if !c.chars && !has_maps { strip_ref(&mut ps[1]); }
                self.visit_expr_mut(&mut body);
                let acc = vid("acc", k); let (p0, p1) = (&ps[0], &ps[1]);
                let m = self.inv_mark(&what, &auto, &ann.inv, &[], &[], &dec);
                parse_quote!({ let mut #acc = #init; #inits #start #before while #cond { VX_INV!(#m); #begin #binds let #p1 = #cur; #i += 1; let #p0 = #acc; #acc = #body; #end } #after #acc })
            }
            _ => return None,
        };
        Some(e)
    }

    // --- for loops
    fn for_loop(&mut self, f: ExprForLoop) -> Expr {
        self.loops += 1; let k = self.loops;
        let ann = self.ann.loops.get(&k).cloned().unwrap_or_default();
        self.rule("R-FOR for loop as index loop");
        let mut it = (*f.expr).clone();
        while let Expr::Paren(p) = it { it = *p.expr; }
        let (c, i) = (vid("c", k), vid("i", k));
        let mut pat = (*f.pat).clone();
        let (init, elem, hi): (TokenStream, TokenStream, String);
        let mut start = quote!(0);
        match it.clone() {
            Expr::Range(r) => {
                let (mut a, mut b) = ((**r.start.as_ref().unwrap()).clone(), match &r.end { Some(b) => (**b).clone(), None => { self.problem("open range"); return Expr::ForLoop(f) } });
                self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                if matches!(r.limits, RangeLimits::Closed(_)) { self.problem("closed range"); return Expr::ForLoop(f); }
                init = quote!(let #c: usize = #b;); elem = quote!(#i); start = quote!(#a); hi = format!("{}", c);
            }
            Expr::Reference(r) => { let mut b = (*r.expr).clone(); self.visit_expr_mut(&mut b); strip_ref(&mut pat); init = quote!(let #c = (#b).vx_sl();); elem = quote!(&#c[#i]); hi = format!("{}@.len()", c); }
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => { let mut b = (*m.receiver).clone(); self.visit_expr_mut(&mut b); strip_ref(&mut pat); init = quote!(let #c = (#b).vx_sl();); elem = quote!(&#c[#i]); hi = format!("{}@.len()", c); }
            Expr::MethodCall(m) if m.method == "chars" && m.args.is_empty() => { let mut b = (*m.receiver).clone(); self.visit_expr_mut(&mut b); init = quote!(let #c = (#b).vx_chars_vec();); elem = quote!(#c[#i]); hi = format!("{}@.len()", c); }
            Expr::MethodCall(m) if (m.method == "pairs_ref" || m.method == "values_ref") && m.args.is_empty() => { let mut b = it.clone(); self.visit_expr_mut(&mut b); strip_ref(&mut pat); init = quote!(let #c = (#b).vx_sl();); elem = quote!(&#c[#i]); hi = format!("{}@.len()", c); }
            _ => { self.problem(&format!("for over {}", norm(&it))); return Expr::ForLoop(f); }
        }
        let is_range = matches!(it, Expr::Range(_));
        let mut body = f.body.clone();
        self.visit_block_mut(&mut body);
        let stmts = &body.stmts;
        let before = self.proof_stmt(&ann.before, &format!("loop {} before", k)); let begin = self.proof_stmt(&ann.begin, &format!("loop {} begin", k)); let end = self.proof_stmt(&ann.end, &format!("loop {} end", k)); let after = self.proof_stmt(&ann.after, &format!("loop {} after", k));
        let dec = ann.dec.clone().unwrap_or(format!("{} - {}", hi, i));
        let auto = if is_range { vec![] } else { vec![format!("{} <= {}", i, hi)] };
        let m = self.inv_mark(&format!("loop {}", k), &auto, &ann.inv, &ann.xinv, &ann.ens, &dec);
        let cond = if is_range { quote!(#i < #c) } else { quote!(#i < #c.len()) };
        let label = &f.label;
        parse_quote!({ #init let mut #i: usize = #start; #before #label while #cond { VX_INV!(#m); let #pat = #elem; #i += 1; #begin #(#stmts)* #end } #after })
    }
    fn loop_wrap(&mut self, k: usize, cond: TokenStream, label: &Option<Label>, body: Block) -> Expr {
        let ann = self.ann.loops.get(&k).cloned().unwrap_or_default();
        let before = self.proof_stmt(&ann.before, &format!("loop {} before", k)); let begin = self.proof_stmt(&ann.begin, &format!("loop {} begin", k)); let end = self.proof_stmt(&ann.end, &format!("loop {} end", k)); let after = self.proof_stmt(&ann.after, &format!("loop {} after", k));
        if ann.dec.is_none() && !self.ann.name.is_empty() { self.ctx.lost.push((self.name.clone(), format!("loop {} has no decreases", k))); }
        let m = self.inv_mark(&format!("loop {}", k), &[], &ann.inv, &ann.xinv, &ann.ens, ann.dec.as_deref().unwrap_or(""));
        let stmts = &body.stmts;
        let has = ann.before.is_some() || ann.after.is_some();
        let l: Expr = parse_quote!(#label #cond { VX_INV!(#m); #begin #(#stmts)* #end });
        if has { parse_quote!({ #before #l #after }) } else { l }
    }

    // --- formatting
    /// Makes the characters of a literal known where it is written (`literals`).
    fn literal(&mut self, s: &str, out: &mut Vec<TokenStream>) {
        if s.is_empty() || !self.ann.literals { return; }
        let m = lit(self.proof_mark(&format!("reveal_strlit({});", Literal::string(s)), "literals"));
        out.push(quote!(VX_PROOF!(#m);));
    }
    fn fmt_parts(&mut self, mac: &TokenStream, skip: usize) -> Option<(Vec<Expr>, Vec<TokenStream>)> {
        // returns the skipped leading args and the statements pushing into vx_s
        let args: punctuated::Punctuated<Expr, Token![,]> = match parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, mac.clone()) { Ok(a) => a, Err(_) => { self.problem("format arguments"); return None } };
        let args: Vec<Expr> = args.into_iter().collect();
        let lead = args[..skip].to_vec();
        if args.len() <= skip { return Some((lead, vec![])); }
        let f = match stringlit(&args[skip]) { Some(f) => f, None => { self.problem("format string is not a literal"); return None } };
        let rest = &args[skip + 1..];
        let mut out = vec![]; let mut litbuf = String::new(); let mut next = 0;
        let cs: Vec<char> = f.chars().collect(); let mut i = 0;
        fn flush(s: &mut String, out: &mut Vec<TokenStream>) { if !s.is_empty() { let l = Literal::string(s); out.push(quote!(vx_s.push_str(#l);)); s.clear(); } }
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => { litbuf.push('{'); i += 2; }
                '}' if cs.get(i + 1) == Some(&'}') => { litbuf.push('}'); i += 2; }
                '{' => {
                    let e = match cs[i..].iter().position(|c| *c == '}') { Some(e) => i + e, None => { self.problem("format string"); return None } };
                    let spec: String = cs[i + 1..e].iter().collect(); i = e + 1;
                    self.literal(&litbuf, &mut out);
                    flush(&mut litbuf, &mut out);
                    let (nm, dbg) = match spec.split_once(':') { Some((n, "?")) => (n.to_string(), true), Some(_) => { self.problem("format spec"); return None } None => (spec.clone(), false) };
                    let a: Expr = if nm.is_empty() { let a = match rest.get(next) { Some(a) => a.clone(), None => { self.problem("format arity"); return None } }; next += 1; a }
                        else if let Ok(n) = nm.parse::<usize>() { match rest.get(n) { Some(a) => a.clone(), None => { self.problem("format arity"); return None } } }
                        else { let named = rest.iter().find_map(|x| if let Expr::Assign(asg) = x { if norm(&asg.left) == nm { Some((*asg.right).clone()) } else { None } } else { None }); match named { Some(x) => x, None => match parse_str(&nm) { Ok(x) => x, Err(_) => { self.problem("format name"); return None } } } };
                    if dbg { out.push(quote!((#a).vx_dbg(&mut vx_s);)) } else { out.push(quote!((#a).vx_disp(&mut vx_s);)) }
                }
                c => { litbuf.push(c); i += 1; }
            }
        }
        self.literal(&litbuf, &mut out);
        flush(&mut litbuf, &mut out);
        Some((lead, out))
    }
    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        match n.as_str() {
            "format" => { self.rule("R-FORMAT format! as pushes in order"); let (_, out) = self.fmt_parts(&m.tokens, 0)?; Some(parse_quote!({ let mut vx_s = String::new(); #(#out)* vx_s })) }
            "write" | "writeln" => {
                self.rule("R-FORMAT format! as pushes in order");
                let (lead, out) = self.fmt_parts(&m.tokens, 1)?; let f = &lead[0];
                let nl = if n == "writeln" { quote!(vx_s.push('\n');) } else { quote!() };
                let out: Vec<TokenStream> = out.into_iter().collect();
                Some(parse_quote!({ let mut vx_s = String::new(); #(#out)* #nl (#f).vx_write(vx_s) }))
            }
            "assert" | "debug_assert" => { self.rule("R-ASSERT assertion as a proof obligation"); let a: punctuated::Punctuated<Expr, Token![,]> = parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, m.tokens.clone()).ok()?; let c = a.first()?; Some(parse_quote!(vx_assert(#c))) }
            "assert_eq" | "debug_assert_eq" => { self.rule("R-ASSERT assertion as a proof obligation"); let a: punctuated::Punctuated<Expr, Token![,]> = parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, m.tokens.clone()).ok()?; let (x, y) = (&a[0], &a[1]); Some(parse_quote!(vx_assert(#x == #y))) }
            "assert_ne" => { let a: punctuated::Punctuated<Expr, Token![,]> = parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, m.tokens.clone()).ok()?; let (x, y) = (&a[0], &a[1]); Some(parse_quote!(vx_assert(#x != #y))) }
            "panic" | "unreachable" | "unimplemented" | "todo" => { self.rule("R-PANIC panic as a proof obligation"); Some(parse_quote!(vx_panic())) }
            "vec" => {
                if m.tokens.is_empty() { return Some(parse_quote!(Vec::new())); }
                let a: punctuated::Punctuated<Expr, Token![,]> = parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, m.tokens.clone()).ok()?;
                let p: Vec<TokenStream> = a.iter().map(|e| quote!(vx_v.push(#e);)).collect();
                Some(parse_quote!({ let mut vx_v = Vec::new(); #(#p)* vx_v }))
            }
            "matches" => {
                let v: Vec<TokenTree> = m.tokens.clone().into_iter().collect(); let pos = v.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ','))?;
                let e: TokenStream = v[..pos].iter().cloned().collect(); let p: TokenStream = v[pos + 1..].iter().cloned().collect();
                parse2(quote!(match #e { #p => true, _ => false })).ok()
            }
            _ => {
                let keys = [format!("{}::{}", self.path, n), format!("macros::{}", n), format!("util::{}", n), format!("::{}", n)];
                for k in keys { if let Some(d) = self.ctx.macros.get(&k).cloned() { match d.expand(&m.tokens) { Ok(ts) => { self.rule("R-MACRO expand expression macro"); return parse2::<Expr>(ts.clone()).ok().or_else(|| parse2(quote!({ #ts })).ok()); } Err(_) => return None } } }
                None
            }
        }
    }

    // --- match on string patterns
    fn str_match(&mut self, m: ExprMatch) -> Expr {
        fn lits(p: &Pat) -> Option<(Vec<Expr>, Option<Ident>)> {
            match p {
                Pat::Lit(l) => { if let Lit::Str(_) = l.lit { Some((vec![Expr::Lit(l.clone())], None)) } else { None } }
                Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { let (a, b) = lits(c)?; if b.is_some() { return None; } v.extend(a); } Some((v, None)) }
                Pat::Ident(i) => match &i.subpat { Some((_, s)) => { let (v, b) = lits(s)?; if b.is_some() { return None; } Some((v, Some(i.ident.clone()))) } None => None },
                Pat::Paren(p) => lits(&p.pat),
                _ => None,
            }
        }
        self.rule("R-STRMATCH match on string literals as comparisons");
        let k = self.un(); let mv = vid("m", k);
        let mut scrut = (*m.expr).clone(); self.visit_expr_mut(&mut scrut);
        let mut arms: Vec<(Option<Expr>, TokenStream, Expr)> = vec![];
        for a in &m.arms {
            let mut body = (*a.body).clone();
            let from = self.pending.len();
            let mut guard = a.guard.as_ref().map(|g| (*g.1).clone());
            if let Some(g) = guard.as_mut() { self.visit_expr_mut(g); }
            self.visit_expr_mut(&mut body);
            body = self.wrap_pending(body, from);
            match lits(&a.pat) {
                Some((v, b)) => {
                    for x in &v { if let Some(s) = stringlit(x) { self.strs.insert(s); } }
                    let c: Expr = parse_quote!(#(vx_str_eq(#mv, #v))||*);
                    let bind = match b { Some(b) => quote!(let #b = #mv;), None => quote!() };
                    let c: Expr = match guard { Some(g) => parse_quote!((#c) && { #bind #g }), None => c };
                    arms.push((Some(c), bind, body));
                }
                None => {
                    let bind = match &a.pat { Pat::Wild(_) => quote!(), Pat::Ident(i) if i.subpat.is_none() => { let id = &i.ident; quote!(let #id = #mv;) } _ => { self.problem("string match pattern"); quote!() } };
                    arms.push((guard.map(|g| parse_quote!({ #bind #g })), bind, body));
                }
            }
        }
        let mut e: Option<Expr> = None;
        for (c, bind, body) in arms.into_iter().rev() {
            let blk: Expr = parse_quote!({ #bind #body });
            e = Some(match (c, e) { (None, _) => blk, (Some(c), Some(rest)) => { let rest: Expr = match rest { r @ Expr::If(_) => r, r @ Expr::Block(_) => r, r => parse_quote!({ #r }) }; parse_quote!(if #c #blk else #rest) } (Some(c), None) => { self.problem("string match without default"); parse_quote!(if #c #blk else { vx_panic() }) } });
        }
        let e = e.unwrap();
        parse_quote!({ let #mv = #scrut; #e })
    }
    fn is_str_match(m: &ExprMatch) -> bool {
        fn has(p: &Pat) -> bool { match p { Pat::Lit(l) => matches!(l.lit, Lit::Str(_)), Pat::Or(o) => o.cases.iter().any(has), Pat::Ident(i) => i.subpat.as_ref().map_or(false, |s| has(&s.1)), Pat::Paren(p) => has(&p.pat), _ => false } }
        m.arms.iter().any(|a| has(&a.pat))
    }

    fn inline_each(&mut self, m: &ExprMethodCall, target: &str) -> Option<Expr> {
        // recv.with_each(|p..| body): the body of `target`, with its closure parameter applied
        let (_, f) = self.ctx.fns.get(target).cloned()?;
        let cl = if let Expr::Closure(c) = &m.args[0] { c.clone() } else { return None };
        let fparam = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { if let Pat::Ident(p) = &*t.pat { Some(p.ident.to_string()) } else { None } } else { None }).next()?;
        struct A { f: String, cl: ExprClosure, ok: bool }
        impl VisitMut for A { fn visit_expr_mut(&mut self, e: &mut Expr) { visit_mut::visit_expr_mut(self, e); if let Expr::Call(c) = e { if norm(&*c.func) == self.f { if c.args.len() != self.cl.inputs.len() { self.ok = false; return; } let ps = self.cl.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }); let args = c.args.iter(); let body = &self.cl.body; *e = parse_quote!({ #(let #ps = #args;)* #body }); } } } }
        let recv = &m.receiver;
        let recv_ts = if norm(recv) == "self" || norm(recv) == "vx_self" { recv.to_token_stream() } else { quote!((#recv)) };
        let body = map_tokens(f.block.to_token_stream(), &|id, path| if id == "self" && !path { Some(recv_ts.clone()) } else { None });
        let mut b: Block = parse2(body).ok()?;
        let mut a = A { f: fparam, cl, ok: true };
        a.visit_block_mut(&mut b);
        if !a.ok { return None; }
        self.rule("R-INLINE closure-taking helper inlined from its own source");
        Some(parse_quote!(#b))
    }
    fn norm_local(t: &Option<Type>) -> Option<Type> { t.clone() }
}

impl<'a> VisitMut for Tx<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) { let mut fx = TyFix { rc: 0 }; fx.visit_type_mut(t); }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let mut s = match s { Stmt::Macro(m) => { let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac }); Stmt::Expr(e, m.semi_token) } s => s };
            let from = self.pending.len();
            match &mut s {
                Stmt::Local(l) => {
                    let ty = if let Pat::Type(t) = &l.pat { Some((*t.ty).clone()) } else { None };
                    self.visit_pat_mut(&mut l.pat);
                    if let Some(i) = &mut l.init {
                        let save = self.expect.take(); self.expect = Self::norm_local(&ty);
                        self.visit_expr_mut(&mut i.expr);
                        self.expect = save;
                        if let Some(d) = &mut i.diverge { self.visit_expr_mut(&mut d.1); }
                    }
                }
                Stmt::Expr(e, _) => self.visit_expr_mut(e),
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(Item::Const(_)) => {}
                Stmt::Item(_) => self.problem("nested item"),
                Stmt::Macro(_) => unreachable!(),
            }
            let p: Vec<(usize, bool)> = self.pending.drain(from..).collect();
            for (m, bef) in &p { if *bef { let l = lit(*m); out.push(parse_quote!(VX_PROOF!(#l);)); } }
            let aft: Vec<Literal> = p.iter().filter(|x| !x.1).map(|x| lit(x.0)).collect();
            if !aft.is_empty() {
                if let Stmt::Expr(e, None) = &s { if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Loop(_) | Expr::While(_) | Expr::Block(_)) { let v = vid("t", self.un()); out.push(parse_quote!(let #v = #e;)); for l in &aft { out.push(parse_quote!(VX_PROOF!(#l);)); } out.push(Stmt::Expr(parse_quote!(#v), None)); continue; } }
            }
            out.push(s);
            for l in aft { out.push(parse_quote!(VX_PROOF!(#l);)); }
        }
        b.stmts = out;
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let from = self.pending.len();
        if let Some(g) = &mut a.guard { self.visit_expr_mut(&mut g.1); }
        self.visit_expr_mut(&mut a.body);
        if self.pending.len() > from { let e = (*a.body).clone(); *a.body = self.wrap_pending(e, from); }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Block(b) = e { b.attrs.retain(|a| !["allow", "warn", "expect"].iter().any(|l| a.path().is_ident(l))) }
        // explicit hints, by text
        let txt = norm(e);
        for (from, to) in self.ann.subs.clone() {
            if txt == from.split_whitespace().collect::<String>() {
                self.rule("R-SUB `a == b` as a direct call of the source's own eq");
                match parse_str::<Expr>(&to) { Ok(x) => *e = x, Err(_) => self.problem("bad sub hint") }
                return;
            }
        }
        // ---- forms handled before their children
        match e {
            Expr::Paren(p) => { let mut inner = (*p.expr).clone(); self.visit_expr_mut(&mut inner); *p.expr = inner; return; }
            Expr::Macro(m) => {
                let m = m.mac.clone();
                if m.path.is_ident("VX_PROOF") { return; }
                match self.macro_expr(&m) { Some(x) => { *e = x; self.visit_expr_mut(e); } None => { self.problem(&format!("macro {}!", norm(&m.path))); *e = parse_quote!(vx_panic()); } }
                return;
            }
            Expr::ForLoop(f) => { let f = f.clone(); *e = self.for_loop(f); return; }
            Expr::While(w) => {
                self.loops += 1; let k = self.loops; let mut w = w.clone();
                if let Expr::Let(l) = &*w.cond {
                    self.rule("R-WHILELET while let as loop/if let/break");
                    let mut s = (*l.expr).clone(); let p = (*l.pat).clone();
                    let from = self.pending.len(); self.visit_expr_mut(&mut s); s = self.wrap_pending(s, from);
                    self.visit_block_mut(&mut w.body); let b = &w.body;
                    let nb: Block = parse_quote!({ if let #p = #s #b else { break; } });
                    *e = self.loop_wrap(k, quote!(loop), &w.label, nb);
                } else if contains_try(&w.cond) {
                    self.rule("R-WHILETRY while with ? as loop/if/break");
                    let from = self.pending.len();
                    self.visit_expr_mut(&mut w.cond); let c0 = (*w.cond).clone(); let c = self.wrap_pending(c0, from);
                    self.visit_block_mut(&mut w.body); let st = &w.body.stmts;
                    let nb: Block = parse_quote!({ let vx_c = #c; if !vx_c { break; } #(#st)* });
                    *e = self.loop_wrap(k, quote!(loop), &w.label, nb);
                } else {
                    self.visit_expr_mut(&mut w.cond); self.visit_block_mut(&mut w.body); let c = &w.cond;
                    *e = self.loop_wrap(k, quote!(while #c), &w.label, w.body.clone());
                }
                return;
            }
            Expr::Loop(l) => { self.loops += 1; let k = self.loops; let mut l = l.clone(); self.visit_block_mut(&mut l.body); *e = self.loop_wrap(k, quote!(loop), &l.label, l.body); return; }
            Expr::Match(m) if Self::is_str_match(m) => { let m = m.clone(); *e = self.str_match(m); return; }
            Expr::Unsafe(u) => { self.rule("R-UNSAFE unsafe block as plain block over shims"); let b = u.block.clone(); let mut x: Expr = if b.stmts.len() == 1 { if let Stmt::Expr(x, None) = &b.stmts[0] { x.clone() } else { parse_quote!(#b) } } else { parse_quote!(#b) }; self.visit_expr_mut(&mut x); *e = x; return; }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if ["any", "all", "find", "collect", "fold", "position"].contains(&name.as_str()) {
                    if let Some(c) = chain_of(&m.receiver) {
                        let mut ty = self.expect.take();
                        if let Some(t) = &m.turbofish { if let Some(GenericArgument::Type(x)) = t.args.first() { ty = Some(x.clone()); } }
                        let args: Vec<Expr> = m.args.iter().cloned().collect();
                        match self.chain(c, &name, args, ty) { Some(x) => { *e = x; return; } None => { self.problem(&format!("iterator chain .{}()", name)); *e = parse_quote!(vx_panic()); return; } }
                    }
                    if name != "find" && name != "fold" { self.problem(&format!(".{}() on an unsupported iterator", name)); *e = parse_quote!(vx_panic()); return; }
                }
                if let Some((_, target)) = self.ann.inlines.iter().find(|(n, _)| *n == name).cloned() {
                    let mc = m.clone();
                    if m.args.len() == 1 && matches!(m.args[0], Expr::Closure(_)) { match self.inline_each(&mc, &target) { Some(x) => { *e = x; self.visit_expr_mut(e); return; } None => { self.problem("inline"); } } }
                }
                // Option::map / Result::map_err with a closure or a path
                if (name == "map" || name == "map_err" || name == "and_then" || name == "unwrap_or_else" || name == "ok_or_else") && m.args.len() == 1 {
                    let mut recv = (*m.receiver).clone(); self.expect.take();
                    self.visit_expr_mut(&mut recv);
                    let arg = m.args[0].clone();
                    let (p, mut body): (Pat, Expr) = match &arg {
                        Expr::Closure(c) if c.inputs.len() == 1 => (match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }, (*c.body).clone()),
                        Expr::Closure(c) if c.inputs.is_empty() => (parse_quote!(_), (*c.body).clone()),
                        Expr::Path(q) => (parse_quote!(vx_p), parse_quote!(#q(vx_p))),
                        _ => { self.problem("map argument"); return; }
                    };
                    self.visit_expr_mut(&mut body);
                    self.rule("R-OPTMAP Option::map / map_err as match");
                    *e = match name.as_str() {
                        "map" => parse_quote!(match #recv { Some(#p) => Some(#body), None => None }),
                        "map_err" => parse_quote!(match #recv { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#body) }),
                        "and_then" => parse_quote!(match #recv { Some(#p) => #body, None => None }),
                        "unwrap_or_else" => parse_quote!(match #recv { Some(vx_v) => vx_v, None => #body }),
                        _ => parse_quote!(match #recv { Some(vx_v) => Ok(vx_v), None => Err(#body) }),
                    };
                    return;
                }
            }
            _ => {}
        }
        let keep = matches!(e, Expr::Block(_) | Expr::If(_) | Expr::Match(_));
        let saved = if keep { None } else { Some(self.expect.take()) };
        visit_mut::visit_expr_mut(self, e);
        if let Some(s) = saved { self.expect = s; }
        // ---- forms handled after their children
        match e {
            Expr::Closure(_) => self.problem("closure"),
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                if simple_lit(&b.left) || simple_lit(&b.right) { return; }
                self.rule("R-EQ == on non-literals as the shim equality of the operand types");
                let (l, r) = (&b.left, &b.right);
                if let Some(s) = stringlit(r) { self.strs.insert(s); }
                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!((#l).vx_eq(&(#r))) } else { parse_quote!(!(#l).vx_eq(&(#r))) };
            }
            Expr::Try(t) => {
                self.rule("R-TRY ? as match with From conversion");
                let x = &t.expr;
                if self.opt_ret { *e = parse_quote!(match #x { Some(vx_v) => vx_v, None => return None }); return; }
                *e = parse_quote!(match #x { Ok(vx_v) => vx_v, Err(vx_e) => return Err(VxFrom::vx_from(vx_e)) });
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                self.note_call(&name);
                let to = match (name.as_str(), m.args.len()) {
                    ("into", 0) => Some("vx_into"), ("unwrap", 0) => Some("vx_unwrap"), ("deref", 0) => Some("vx_deref"), ("parse", 0) => Some("vx_parse"),
                    ("starts_with", 1) => Some("vx_starts_with"), ("ends_with", 1) => Some("vx_ends_with"), ("trim_end_matches", 1) => Some("vx_trim_end_matches"), ("repeat", 1) => Some("vx_repeat"),
                    ("chars", 0) => Some("vx_chars"), ("to_string", 0) => Some("vx_to_string"), ("is_alphabetic", 0) => Some("vx_is_alphabetic"), ("is_whitespace", 0) => Some("vx_is_whitespace"),
                    ("to_owned", 0) => Some("vx_to_owned"), ("as_bytes", 0) => Some("vx_as_bytes"), ("is_ascii_digit", 0) => Some("vx_is_ascii_digit"), ("is_alphanumeric", 0) => Some("vx_is_alphanumeric"), ("is_numeric", 0) => Some("vx_is_numeric"),
                    _ => None,
                };
                if let Some(t) = to { self.rule("R-SHIM std method by its shim"); m.method = Ident::new(t, Span::call_site()); return; }
                if name == "borrow" && m.args.is_empty() { self.rule("R-RCCELL Rc<RefCell<T>> as T (sharing discipline checked by R-ALIAS)"); let r = &m.receiver; *e = parse_quote!((&#r)); return; }
                if name == "borrow_mut" && m.args.is_empty() { self.rule("R-RCCELL Rc<RefCell<T>> as T (sharing discipline checked by R-ALIAS)"); let r = &m.receiver; *e = if self.self_mut { parse_quote!((&mut #r)) } else { parse_quote!((&#r)) }; return; }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    let full = norm(&p.path);
                    let short = p.path.segments.last().unwrap().ident.to_string();
                    self.note_call(&short);
                    if full == "Default::default" { *c.func = parse_quote!(VxDefault::vx_default); return; }
                    if full == "Rc::new" || full == "RefCell::new" { self.rule("R-RCCELL Rc<RefCell<T>> as T (sharing discipline checked by R-ALIAS)"); let a = c.args[0].clone(); *e = a; return; }
                    if full == "Arc::ptr_eq" { *c.func = parse_quote!(vx_arc_ptr_eq); return; }
                    if full == "Arc::strong_count" { *c.func = parse_quote!(vx_arc_strong_count); return; }
                    if full == "String::from" { *c.func = parse_quote!(vx_string_from); return; }
                    if full.starts_with("::num_") { let l = p.path.segments.iter().skip(1).cloned().collect::<Vec<_>>(); *c.func = parse_quote!(crate::vx::#(#l)::*); return; }
                    if let Some(pos) = self.ctx.alias.get(&short).cloned() {
                        for i in pos {
                            if let Some(a) = c.args.iter_mut().nth(i) { if let Some(x) = is_clone(a) { let x = x.clone(); let nm = norm(&x); *a = if self.stream_refs.contains(&nm) { parse_quote!(&mut *#x) } else { parse_quote!(&mut #x) }; } }
                        }
                    }
                }
            }
            Expr::Path(p) => {
                if p.path.segments.len() == 1 || p.path.segments.first().map_or(false, |s| s.ident == "crate" || s.ident == "super") {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    if self.ctx.statics.contains(&n) { let f = format_ident!("vx_static_{}", n); let mut segs: Vec<PathSegment> = p.path.segments.iter().cloned().collect(); segs.last_mut().unwrap().ident = f; *e = parse_quote!((*#(#segs)::*())); }
                }
            }
            Expr::Lit(l) => { if let Lit::Str(s) = &l.lit { self.strs.insert(s.value()); } }
            _ => {}
        }
    }
}
