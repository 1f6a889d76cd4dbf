//! Expansion of the source's own simple macros, lazy_static and derive(PartialEq).
use crate::Ctx;
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{format_ident, quote};
use syn::*;

#[derive(Clone)]
pub struct MacroDef { params: Vec<(String, String)>, body: TokenStream, arms: Vec<(TokenStream, TokenStream)> }

impl MacroDef {
    pub fn parse(ts: &TokenStream) -> Option<MacroDef> { MacroDef::simple(ts).or_else(|| MacroDef::general(ts)) }
    /// Any other macro_rules definition, as its arms.
    fn general(ts: &TokenStream) -> Option<MacroDef> {
        let v: Vec<TokenTree> = ts.clone().into_iter().collect();
        let mut arms = vec![]; let mut i = 0;
        while i < v.len() {
            match (v.get(i)?, v.get(i + 1)?, v.get(i + 2)?, v.get(i + 3)?) {
                (TokenTree::Group(p), TokenTree::Punct(a), TokenTree::Punct(b), TokenTree::Group(q)) if a.as_char() == '=' && b.as_char() == '>' => arms.push((p.stream(), q.stream())),
                _ => return None,
            }
            i += 4;
            if let Some(TokenTree::Punct(p)) = v.get(i) { if p.as_char() == ';' { i += 1 } }
        }
        Some(MacroDef { params: vec![], body: TokenStream::new(), arms })
    }
    /// A macro_rules definition with exactly one arm whose parameters are `$name:frag`, separated by commas.
    fn simple(ts: &TokenStream) -> Option<MacroDef> {
        let v: Vec<TokenTree> = ts.clone().into_iter().collect();
        let pat = match v.get(0)? { TokenTree::Group(g) => g.stream(), _ => return None };
        let body = match v.get(3)? { TokenTree::Group(g) => g.stream(), _ => return None };
        if v.len() > 5 { return None; }
        let p: Vec<TokenTree> = pat.into_iter().collect();
        let mut params = vec![]; let mut i = 0;
        while i < p.len() {
            match &p[i] { TokenTree::Punct(x) if x.as_char() == '$' => {} _ => return None }
            let n = match &p[i + 1] { TokenTree::Ident(x) => x.to_string(), _ => return None };
            let f = match p.get(i + 3)? { TokenTree::Ident(x) => x.to_string(), _ => return None };
            params.push((n, f)); i += 4;
            if i < p.len() { i += 1; }
        }
        Some(MacroDef { params, body, arms: vec![] })
    }
    pub fn expand(&self, args: &TokenStream) -> std::result::Result<TokenStream, String> {
        if !self.arms.is_empty() {
            let v: Vec<TokenTree> = args.clone().into_iter().collect();
            for (p, b) in &self.arms {
                let p: Vec<TokenTree> = p.clone().into_iter().collect();
                if let Some((m, rest)) = matches(&p, &v) { if rest == v.len() { return transcribe(b.clone(), &m); } }
            }
            return Err("no arm of the macro matches".into());
        }
        let mut parts: Vec<TokenStream> = vec![]; let mut cur: Vec<TokenTree> = vec![]; let mut depth = 0i32;
        for t in args.clone() {
            if let TokenTree::Punct(p) = &t { match p.as_char() { '<' => depth += 1, '>' => depth -= 1, ',' if depth == 0 => { parts.push(cur.drain(..).collect()); continue; } _ => {} } }
            cur.push(t);
        }
        if !cur.is_empty() { parts.push(cur.into_iter().collect()); }
        if parts.len() != self.params.len() { return Err(format!("macro arity {} vs {}", parts.len(), self.params.len())); }
        let sub: Vec<(String, TokenStream)> = self.params.iter().zip(parts).map(|((n, f), a)| (n.clone(), if f == "expr" { let g = Group::new(Delimiter::None, a.clone()); let is_lit = a.clone().into_iter().count() == 1; if is_lit { a } else { let _ = g; quote!((#a)) } } else { a })).collect();
        Ok(subst(self.body.clone(), &sub))
    }
}
/// What the variables of a pattern stand for.
#[derive(Clone)]
enum Bound { One(TokenStream), Many(Vec<Bindings>) }
type Bindings = Vec<(String, Bound)>;
fn punct(t: Option<&TokenTree>, c: char) -> bool { matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c) }
fn rep(t: Option<&TokenTree>) -> Option<char> { match t { Some(TokenTree::Punct(p)) if "*+?".contains(p.as_char()) => Some(p.as_char()), _ => None } }
/// The repetition `$( .. ) sep op` at p[i]: its inside, the separator, the operator and the index behind it.
fn repetition(p: &[TokenTree], i: usize) -> Option<(Vec<TokenTree>, Option<TokenTree>, char, usize)> {
    if !punct(p.get(i), '$') { return None }
    let g = match p.get(i + 1) { Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => g.stream().into_iter().collect(), _ => return None };
    if let Some(o) = rep(p.get(i + 2)) { return Some((g, None, o, i + 3)) }
    // a separator of one or two tokens is one token of macro_rules; only one-token separators occur here
    rep(p.get(i + 3)).map(|o| (g, Some(p[i + 2].clone()), o, i + 4))
}
fn names(p: &[TokenTree], out: &mut Vec<String>) {
    for (i, t) in p.iter().enumerate() {
        if let TokenTree::Group(g) = t { names(&g.stream().into_iter().collect::<Vec<_>>(), out) }
        if punct(Some(t), '$') { if let Some(TokenTree::Ident(n)) = p.get(i + 1) { out.push(n.to_string()) } }
    }
}
fn same(a: &TokenTree, b: &TokenTree) -> bool { match (a, b) { (TokenTree::Group(_), _) | (_, TokenTree::Group(_)) => false, _ => a.to_string() == b.to_string() } }
fn fragment(kind: &str, v: &[TokenTree]) -> Option<(TokenStream, usize)> {
    use syn::parse::{Parse, ParseStream, Parser};
    fn take<X: Parse + quote::ToTokens>(v: &[TokenTree]) -> Option<(TokenStream, usize)> {
        let ts: TokenStream = v.iter().cloned().collect();
        let f = |i: ParseStream| -> syn::Result<(TokenStream, usize)> { let x: X = i.parse()?; let rest: TokenStream = i.parse()?; Ok((x.to_token_stream(), rest.into_iter().count())) };
        let (x, rest) = f.parse2(ts).ok()?; Some((x, v.len() - rest))
    }
    match kind {
        "expr" => take::<Expr>(v).map(|(x, n)| (if n == 1 { x } else { quote!((#x)) }, n)),
        "ident" => take::<Ident>(v), "ty" => take::<Type>(v), "literal" => take::<Lit>(v), "path" => take::<Path>(v), "block" => take::<Block>(v),
        "tt" => v.first().map(|t| (t.clone().into(), 1)),
        _ => None,
    }
}
/// Matches the pattern against a prefix of the input: the bindings and how much of the input the pattern took.
fn matches(p: &[TokenTree], v: &[TokenTree]) -> Option<(Bindings, usize)> {
    let (mut i, mut j, mut m): (usize, usize, Bindings) = (0, 0, vec![]);
    while i < p.len() {
        if let Some((inner, sep, op, next)) = repetition(p, i) {
            let mut rounds = vec![];
            loop {
                let mut k = j;
                if !rounds.is_empty() { if op == '?' { break } if let Some(s) = &sep { match v.get(k) { Some(t) if same(s, t) => k += 1, _ => break } } }
                match matches(&inner, &v[k..]) { Some((b, n)) if n > 0 => { rounds.push(b); j = k + n } _ => break }
            }
            if op == '+' && rounds.is_empty() { return None }
            let mut ns = vec![]; names(&inner, &mut ns);
            for n in ns { m.push((n, Bound::Many(rounds.clone()))) }
            i = next; continue;
        }
        if punct(p.get(i), '$') && punct(p.get(i + 2), ':') {
            let (n, k) = match (&p[i + 1], p.get(i + 3)) { (TokenTree::Ident(n), Some(TokenTree::Ident(k))) => (n.to_string(), k.to_string()), _ => return None };
            let (ts, used) = fragment(&k, &v[j..])?;
            m.push((n, Bound::One(ts))); j += used; i += 4; continue;
        }
        match (&p[i], v.get(j)?) {
            (TokenTree::Group(a), TokenTree::Group(b)) if a.delimiter() == b.delimiter() => {
                let (a, b): (Vec<_>, Vec<_>) = (a.stream().into_iter().collect(), b.stream().into_iter().collect());
                let (x, n) = matches(&a, &b)?;
                if n != b.len() { return None }
                m.extend(x);
            }
            (a, b) if same(a, b) => (),
            _ => return None,
        }
        i += 1; j += 1;
    }
    Some((m, j))
}
fn transcribe(ts: TokenStream, m: &Bindings) -> std::result::Result<TokenStream, String> {
    let v: Vec<TokenTree> = ts.into_iter().collect(); let mut out = TokenStream::new(); let mut i = 0;
    while i < v.len() {
        if let Some((inner, sep, _, next)) = repetition(&v, i) {
            let mut ns = vec![]; names(&inner, &mut ns);
            let rounds = m.iter().find_map(|(n, b)| match b { Bound::Many(r) if ns.contains(n) => Some(r.clone()), _ => None }).ok_or("a repetition without a variable")?;
            let inner: TokenStream = inner.into_iter().collect();
            for (k, r) in rounds.iter().enumerate() {
                if k > 0 { if let Some(s) = &sep { out.extend([s.clone()]) } }
                let mut all = r.clone(); all.extend(m.iter().filter(|(n, _)| !r.iter().any(|(x, _)| x == n)).cloned());
                out.extend(transcribe(inner.clone(), &all)?);
            }
            i = next; continue;
        }
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1) {
                Some(TokenTree::Ident(id)) if id == "crate" => { out.extend(quote!(crate)); i += 2; continue }
                Some(TokenTree::Ident(id)) => match m.iter().find(|(n, _)| id == n) {
                    Some((_, Bound::One(x))) => { out.extend(x.clone()); i += 2; continue }
                    _ => return Err(format!("${} is not bound here", id)),
                },
                _ => return Err("a stray $".into()),
            },
            TokenTree::Group(g) => { let s = transcribe(g.stream(), m)?; out.extend([TokenTree::Group(Group::new(g.delimiter(), s))]); }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    Ok(out)
}
fn subst(ts: TokenStream, sub: &[(String, TokenStream)]) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect(); let mut out = TokenStream::new(); let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(id)) = v.get(i + 1) { if let Some((_, a)) = sub.iter().find(|(n, _)| *n == id.to_string()) { out.extend(a.clone()); i += 2; continue; } }
                out.extend([v[i].clone()]);
            }
            TokenTree::Group(g) => { let s = subst(g.stream(), sub); out.extend([TokenTree::Group(Group::new(g.delimiter(), s))]); }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}
pub fn lazy_static(ts: &TokenStream, path: &str, ctx: &mut Ctx) {
    // [vis] static ref NAME : TYPE = EXPR ;
    let v: Vec<TokenTree> = ts.clone().into_iter().collect(); let mut i = 0;
    while i < v.len() {
        if let TokenTree::Ident(id) = &v[i] { if id == "ref" {
            let name = v[i + 1].to_string(); let mut j = i + 3; let mut ty = TokenStream::new();
            while !matches!(&v[j], TokenTree::Punct(p) if p.as_char() == '=') { ty.extend([v[j].clone()]); j += 1; }
            j += 1; let mut ex = TokenStream::new();
            while j < v.len() && !matches!(&v[j], TokenTree::Punct(p) if p.as_char() == ';') { ex.extend([v[j].clone()]); j += 1; }
            ctx.statics.insert(name.clone());
            ctx.static_items.push((path.to_string(), name, parse2(ty).unwrap(), parse2(ex).unwrap()));
            ctx.rule("R-STATIC lazy_static as accessor function"); i = j;
        } }
        i += 1;
    }
}
pub fn derive_eq(it: &Item) -> Item {
    match it {
        Item::Enum(e) => {
            let n = &e.ident; let mut arms = vec![];
            for v in &e.variants {
                let vi = &v.ident;
                match &v.fields {
                    Fields::Unit => arms.push(quote!((#n::#vi, #n::#vi) => true)),
                    Fields::Unnamed(u) => {
                        let a: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("vx_l{}", i)).collect();
                        let b: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("vx_r{}", i)).collect();
                        arms.push(quote!((#n::#vi(#(#a),*), #n::#vi(#(#b),*)) => #(*#a == *#b)&&*));
                    }
                    Fields::Named(u) => {
                        let f: Vec<_> = u.named.iter().map(|x| x.ident.clone().unwrap()).collect();
                        let a: Vec<_> = f.iter().map(|i| format_ident!("vx_l{}", i)).collect();
                        let b: Vec<_> = f.iter().map(|i| format_ident!("vx_r{}", i)).collect();
                        arms.push(quote!((#n::#vi{#(#f: #a),*}, #n::#vi{#(#f: #b),*}) => #(*#a == *#b)&&*));
                    }
                }
            }
            parse_quote!(impl PartialEq for #n { fn eq(&self, other: &#n) -> bool { match (self, other) { #(#arms,)* _ => false } } })
        }
        Item::Struct(s) => {
            let n = &s.ident;
            let t: Vec<TokenStream> = s.fields.iter().enumerate().map(|(i, f)| match &f.ident { Some(id) => quote!(self.#id == other.#id), None => { let ix = Index::from(i); quote!(self.#ix == other.#ix) } }).collect();
            parse_quote!(impl PartialEq for #n { fn eq(&self, other: &#n) -> bool { #(#t)&&* } })
        }
        _ => unreachable!(),
    }
}

pub fn derive_clone(it: &Item) -> Item {
    let fields = |fs: &Fields, head: TokenStream| -> TokenStream {
        match fs {
            Fields::Unit => quote!(#head => #head),
            Fields::Unnamed(u) => { let a: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("vx_l{}", i)).collect(); quote!(#head(#(#a),*) => #head(#(#a.clone()),*)) }
            Fields::Named(u) => { let f: Vec<_> = u.named.iter().map(|x| x.ident.clone().unwrap()).collect(); let a: Vec<_> = f.iter().map(|i| format_ident!("vx_l{}", i)).collect(); quote!(#head{#(#f: #a),*} => #head{#(#f: #a.clone()),*}) }
        }
    };
    match it {
        Item::Enum(e) => {
            let n = &e.ident;
            let arms: Vec<_> = e.variants.iter().map(|v| { let vi = &v.ident; fields(&v.fields, quote!(#n::#vi)) }).collect();
            parse_quote!(impl Clone for #n { fn clone(&self) -> #n { match self { #(#arms,)* } } })
        }
        Item::Struct(s) => {
            let n = &s.ident; let arm = fields(&s.fields, quote!(#n));
            parse_quote!(impl Clone for #n { fn clone(&self) -> #n { match self { #arm } } })
        }
        _ => unreachable!(),
    }
}

/// A parameter `f: F` with `F: FnMut(&A, ..)` becomes `f: &mut VxCalls<(A, ..)>`, and a call `f(x, ..)` becomes
/// `f.vx_call<n>(x, ..)`: the callback is any function at all, observed through the sequence of its calls.
pub fn closure_params(f: &mut ItemFn) -> bool {
    use syn::visit_mut::{self, VisitMut};
    let bound = |bs: &punctuated::Punctuated<TypeParamBound, Token![+]>| -> Option<Vec<Type>> {
        for b in bs { if let TypeParamBound::Trait(t) = b { let s = t.path.segments.last().unwrap(); if s.ident == "FnMut" || s.ident == "Fn" || s.ident == "FnOnce" { if let PathArguments::Parenthesized(p) = &s.arguments {
            if !matches!(p.output, ReturnType::Default) { return None; }
            return p.inputs.iter().map(|t| if let Type::Reference(r) = t { if r.mutability.is_none() { Some((*r.elem).clone()) } else { None } } else { None }).collect();
        } } } }
        None
    };
    let mut found: Vec<(String, Vec<Type>)> = vec![];
    for g in &f.sig.generics.params { if let GenericParam::Type(t) = g { if let Some(a) = bound(&t.bounds) { found.push((t.ident.to_string(), a)); } } }
    if let Some(w) = &f.sig.generics.where_clause { for p in &w.predicates { if let WherePredicate::Type(t) = p { if let Some(a) = bound(&t.bounds) { found.push((crate::norm(&t.bounded_ty), a)); } } } }
    let mut vars: Vec<(String, usize)> = vec![];
    for i in f.sig.inputs.iter_mut() { if let FnArg::Typed(t) = i {
        let key = match &*t.ty { Type::ImplTrait(it) => bound(&it.bounds).map(|a| (String::new(), a)), ty => { let n = crate::norm(ty); found.iter().find(|(k, _)| *k == n).cloned() } };
        if let (Some((_, a)), Pat::Ident(id)) = (key, &*t.pat) {
            let n = id.ident.clone(); vars.push((n.to_string(), a.len()));
            t.pat = parse_quote!(#n); t.ty = parse_quote!(&mut VxCalls<(#(#a,)*)>);
        }
    } }
    if vars.is_empty() { return false; }
    let used: Vec<String> = found.iter().map(|(k, _)| k.clone()).collect();
    f.sig.generics.params = f.sig.generics.params.iter().filter(|g| !matches!(g, GenericParam::Type(t) if used.contains(&t.ident.to_string()))).cloned().collect();
    if let Some(w) = &mut f.sig.generics.where_clause { w.predicates = w.predicates.iter().filter(|p| !matches!(p, WherePredicate::Type(t) if used.contains(&crate::norm(&t.bounded_ty)))).cloned().collect(); }
    if f.sig.generics.where_clause.as_ref().map_or(false, |w| w.predicates.is_empty()) { f.sig.generics.where_clause = None; }
    if f.sig.generics.params.is_empty() { f.sig.generics.lt_token = None; f.sig.generics.gt_token = None; }
    struct V(Vec<(String, usize)>);
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(c) = e { if let Expr::Path(p) = &*c.func { if let Some(n) = p.path.get_ident() { if self.0.iter().any(|(v, k)| n == v && *k == c.args.len()) {
                let m = format_ident!("vx_call{}", c.args.len()); let a = &c.args; *e = parse_quote!(#n.#m(#a));
            } } } }
        }
    }
    V(vars).visit_block_mut(&mut f.block);
    true
}
