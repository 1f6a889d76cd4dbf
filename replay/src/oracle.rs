//! The reference semantics, executable: a transliteration of contracts/spec.rs and contracts/spec_parse.rs
//! (what the contracts say), written without looking at how the crate does it.  Used only to look for a
//! failing input for an obligation that fails, and as a bounded stand-in where a function is out of reach.
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::rc::Rc;

// ------------------------------------------------------------------ types
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T { Any, Null, Bool, Int, Frac, Str, Arr(Box<T>), Tup(Vec<T>), Obj }
pub fn tarr(t: T) -> T { T::Arr(Box::new(t)) }
pub fn compat(a: &T, b: &T) -> bool {
    match (a, b) {
        (T::Any, _) | (_, T::Any) => true,
        (T::Arr(x), T::Arr(y)) => compat(x, y),
        (T::Tup(x), T::Tup(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| compat(p, q)),
        _ => a == b,
    }
}
pub fn has_any(a: &T) -> bool { match a { T::Any => true, T::Arr(x) => has_any(x), T::Tup(x) => x.iter().any(has_any), _ => false } }
pub fn join(a: &T, b: &T) -> T {
    match (a, b) {
        (_, T::Any) => a.clone(),
        (T::Any, _) => b.clone(),
        (T::Arr(x), T::Arr(y)) => tarr(join(x, y)),
        (T::Tup(x), T::Tup(y)) => T::Tup(x.iter().zip(y).map(|(p, q)| join(p, q)).collect()),
        _ => a.clone(),
    }
}
pub fn msp(a: &T, b: &T) -> Option<T> { if compat(a, b) { Some(join(a, b)) } else { None } }
pub fn type_disp(t: &T) -> String {
    match t {
        T::Any => "Any".into(), T::Null => "Null".into(), T::Bool => "Bool".into(), T::Int => "Int".into(), T::Frac => "Frac".into(), T::Str => "Str".into(), T::Obj => "Obj".into(),
        T::Arr(x) => format!("Arr({})", type_disp(x)),
        T::Tup(x) => format!("Tup({})", x.iter().map(type_disp).collect::<Vec<_>>().join(", ")),
    }
}

// ------------------------------------------------------------------ values
#[derive(Clone, Debug)]
pub enum V { Null, Bool(bool), Int(BigInt), Frac(BigRational), Str(String), Arr(Rc<(Vec<V>, T)>), Tup(Rc<(Vec<V>, Vec<T>)>), Obj(Rc<O>) }
#[derive(Debug)]
pub struct O { pub pairs: Vec<(String, V)>, pub parent: Option<Rc<O>>, pub tag: u8 }
pub fn vtype(v: &V) -> T {
    match v { V::Null => T::Null, V::Bool(_) => T::Bool, V::Int(_) => T::Int, V::Frac(_) => T::Frac, V::Str(_) => T::Str,
        V::Arr(a) => tarr(a.1.clone()), V::Tup(t) => T::Tup(t.1.clone()), V::Obj(_) => T::Obj }
}
pub fn vtypes(vs: &[V]) -> Vec<T> { vs.iter().map(vtype).collect() }
/// The common type, or the pair of types that do not go together.
pub fn arr_type(vs: &[V]) -> Result<T, (T, T)> {
    let mut t = T::Any;
    for v in vs { let u = vtype(v); t = match msp(&t, &u) { Some(w) => w, None => return Err((t, u)) } }
    Ok(t)
}
pub fn mk_arr(vs: Vec<V>, t: T) -> V { V::Arr(Rc::new((vs, t))) }
pub fn mk_tup(vs: Vec<V>) -> V { let ts = vtypes(&vs); V::Tup(Rc::new((vs, ts))) }
pub fn mk_obj(pairs: Vec<(String, V)>, parent: Option<Rc<O>>) -> V { V::Obj(Rc::new(O { pairs, parent, tag: 0 })) }
/// Structural equality.
pub fn seq_eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Null, V::Null) => true,
        (V::Bool(x), V::Bool(y)) => x == y,
        (V::Int(x), V::Int(y)) => x == y,
        (V::Frac(x), V::Frac(y)) => x.numer() * y.denom() == y.numer() * x.denom(),
        (V::Str(x), V::Str(y)) => x == y,
        (V::Arr(x), V::Arr(y)) => Rc::ptr_eq(x, y) || x.0.len() == y.0.len() && x.0.iter().zip(&y.0).all(|(p, q)| seq_eq(p, q)),
        (V::Tup(x), V::Tup(y)) => Rc::ptr_eq(x, y) || x.0.len() == y.0.len() && x.0.iter().zip(&y.0).all(|(p, q)| seq_eq(p, q)),
        (V::Obj(x), V::Obj(y)) => soeq(x, y),
        _ => false,
    }
}
pub fn soeq(a: &Rc<O>, b: &Rc<O>) -> bool {
    Rc::ptr_eq(a, b) || (match (&a.parent, &b.parent) { (None, None) => true, (Some(p), Some(q)) => soeq(p, q), _ => false })
        && a.pairs.len() == b.pairs.len() && a.pairs.iter().zip(&b.pairs).all(|(p, q)| p.0 == q.0 && seq_eq(&p.1, &q.1))
}
pub fn sp_find<'a>(ps: &'a [(String, V)], f: &str) -> Option<&'a V> { for p in ps { if p.0 == f { return Some(&p.1) } } None }
pub fn sp_source(o: &Rc<O>, f: &str) -> Option<(V, Rc<O>)> {
    match sp_find(&o.pairs, f) { Some(v) => Some((v.clone(), o.clone())), None => match &o.parent { Some(p) => sp_source(p, f), None => None } }
}
pub fn name_char(c: char, first: bool) -> bool { c.is_alphabetic() || c == '_' || (c.is_ascii_digit() && !first) }
pub fn valid_name(s: &str) -> bool { !s.is_empty() && s.chars().enumerate().all(|(i, c)| name_char(c, i == 0)) }
pub fn field_char(c: char, first: bool) -> bool { name_char(c, first) || (c == '^' && first) }
pub fn reserved(s: &str) -> bool { ["@", "null", "true", "false", "Obj", "Str", "Arr", "Tup"].contains(&s) }

// ------------------------------------------------------------------ characters
pub fn end_delim(c: char) -> bool { ")]}>".contains(c) }
pub fn op_char(c: char) -> bool { "+-*/%".contains(c) }
pub fn value_end(c: char) -> bool { c.is_whitespace() || c == '#' || end_delim(c) || op_char(c) }
pub fn unesc(c: char) -> Option<char> { Some(match c { '\\' => '\\', '"' => '"', '\'' => '\'', '$' => '$', 'n' => '\n', 'r' => '\r', 't' => '\t', _ => return None }) }

// ------------------------------------------------------------------ the document language
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum IK { Obj, Str, Arr, Tup }
#[derive(Clone, Copy, PartialEq, Eq)]
enum FK { Global, Parent, Regular }
pub type Inc = HashMap<(IK, String), V>;
#[derive(Debug, Clone)]
pub struct PErr { pub file: Option<String>, pub kind: &'static str, pub msg: String }
impl PErr { pub fn text(&self) -> String { match &self.file { Some(f) => format!("{}: {}", f, self.msg), None => self.msg.clone() } } }
type R<X> = Result<X, PErr>;

thread_local! { static TOKENS: RefCell<Vec<Rc<O>>> = RefCell::new((0..5).map(|i| Rc::new(O { pairs: vec![], parent: None, tag: i })).collect()); }
fn token(i: usize) -> V { TOKENS.with(|t| V::Obj(t.borrow()[i].clone())) }

/// What stays fixed while one file is read.
struct Cx { s: Vec<char>, lc: Vec<(usize, usize)>, file: Option<String>, cyc: HashSet<String> }
/// What changes.
struct St { p: usize, g: HashMap<String, V>, inc: Inc, steps: usize }

fn positions(s: &[char]) -> Vec<(usize, usize)> {
    let (mut l, mut c) = (1, 1);
    let mut r = vec![(1, 1)];
    for ch in s { if *ch == '\n' { l += 1; c = 1 } else { c += 1 } r.push((l, c)) }
    r
}
impl Cx {
    fn new(s: &str, file: Option<String>, cyc: HashSet<String>) -> Cx { let s: Vec<char> = s.chars().collect(); let lc = positions(&s); Cx { s, lc, file, cyc } }
    fn n(&self) -> usize { self.s.len() }
    fn at(&self, p: usize) -> Option<char> { self.s.get(p).copied() }
    fn lc(&self, p: usize) -> String { format!("line {}, column {}", self.lc[p].0, self.lc[p].1) }
    fn err<X>(&self, kind: &'static str, msg: String) -> R<X> { Err(PErr { file: self.file.clone(), kind, msg }) }
    fn e_end<X>(&self, p: usize) -> R<X> { self.err("UnexpectedEnd", format!("Unexpected end at line {}", self.lc[p].0)) }
    fn e_depth<X>(&self, p: usize) -> R<X> { self.err("MaxDepth", format!("Exceeded maximum recursion depth (64) at {}", self.lc(p))) }
    fn e_char<X>(&self, p: usize) -> R<X> { self.err("InvalidValueChar", format!("Invalid character {:?} for value at {}", self.s[p], self.lc(p))) }
    fn e_close<X>(&self, b: Option<char>, p: usize) -> R<X> {
        self.err("InvalidClosingBracket", format!("Invalid closing bracket '{}' at {}; expected {}", self.s[p], self.lc(p), match b { Some(c) => format!("'{}'", c), None => "none".into() }))
    }
    fn e_over<X>(&self, m: String, p: usize) -> R<X> { self.err("OverError", format!("{} at line {}, col {}", m, self.lc[p].0, self.lc[p].1)) }
    fn e_num<X>(&self, p: usize) -> R<X> { self.err("InvalidNumeric", format!("Invalid numeric value at {}", self.lc(p))) }
    fn e_expected<X>(&self, a: &T, b: &T, p: usize) -> R<X> { self.err("ExpectedType", format!("Expected {} at {}; found {}", type_disp(a), self.lc(p), type_disp(b))) }
    fn skip(&self, mut p: usize) -> usize {
        while p < self.n() {
            if self.s[p] == '#' { while p < self.n() && self.s[p] != '\n' { p += 1 } if p < self.n() { p += 1 } }
            else if self.s[p].is_whitespace() { p += 1 } else { return p }
        }
        p
    }
}

fn sp_field(c: &Cx, p: usize) -> R<(String, FK, usize)> {
    let glob = c.at(p) == Some('@');
    let mut name = String::new();
    let mut q = p;
    if glob { name.push('@'); q += 1 }
    let start = q;
    loop {
        match c.at(q) {
            None => break,
            Some(':') if q > start => { q += 1; break }
            Some(ch) if field_char(ch, q == start) => { name.push(ch); q += 1 }
            Some(ch) => return c.err("InvalidFieldChar", format!("Invalid character {:?} for field at {}", ch, c.lc(q))),
        }
    }
    if reserved(&name) || (name != "^" && name.starts_with('^')) || name.starts_with("@^") { return c.err("InvalidFieldName", format!("Invalid field name \"{}\" at {}", name, c.lc(p))) }
    Ok(if name == "^" { (name, FK::Parent, q) } else { (name, if glob { FK::Global } else { FK::Regular }, q) })
}
fn sp_num(c: &Cx, p: usize) -> R<(V, usize)> {
    let (mut digits, mut frac_len, mut dec, mut under, mut q) = (String::new(), 0usize, false, false, p);
    while let Some(ch) = c.at(q) {
        if value_end(ch) { break }
        if ch == '_' { if under { return c.e_char(q) } under = true; q += 1; continue }
        under = false;
        if ch.is_ascii_digit() { digits.push(ch); if dec { frac_len += 1 } }
        else if ch == '.' || ch == ',' { if dec { return c.e_char(q) } dec = true }
        else { return c.e_char(q) }
        q += 1;
    }
    if digits.is_empty() { return c.e_num(p) }
    // Horner, in chunks of nine digits.
    let mut n = BigInt::zero();
    for chunk in digits.as_bytes().chunks(9) { let mut m = 1u64; let mut k = 0u64; for b in chunk { m *= 10; k = k * 10 + (b - b'0') as u64 } n = n * BigInt::from(m) + BigInt::from(k) }
    if !dec { return Ok((V::Int(n), q)) }
    let mut d = BigInt::one();
    for _ in 0..frac_len { d = d * BigInt::from(10) }
    Ok((V::Frac(BigRational::new(n, d)), q))
}
fn sp_str(c: &Cx, p: usize) -> R<(V, usize)> {
    let mut x = String::new();
    let mut q = p + 1;
    loop {
        match c.at(q) {
            None => return c.e_end(c.n()),
            Some('"') => return Ok((V::Str(x), q + 1)),
            Some('\\') => match c.at(q + 1) {
                None => return c.e_end(c.n()),
                Some(e) => match unesc(e) {
                    Some(ch) => { x.push(ch); q += 2 }
                    None => return c.err("InvalidEscapeChar", format!("Invalid escape character {:?} following backslash at {}. If you meant to write a backslash, use '\\\\'", e, c.lc(q + 1))),
                },
            },
            Some(ch) => { x.push(ch); q += 1 }
        }
    }
}
fn trunc_rem(a: &BigInt, b: &BigInt) -> BigInt { let r = a.abs() - (a.abs() / b.abs()) * b.abs(); if a.is_negative() { -r } else { r } }
fn fr(n: &BigInt) -> BigRational { BigRational::new(n.clone(), BigInt::one()) }
fn sp_bin(c: &Cx, a: V, b: V, op: char, p: usize) -> R<V> {
    let (a, b) = match (a, b) { (V::Int(x), V::Frac(y)) => (V::Frac(fr(&x)), V::Frac(y)), (V::Frac(x), V::Int(y)) => (V::Frac(x), V::Frac(fr(&y))), o => o };
    let q = |n: BigInt, d: BigInt| V::Frac(BigRational::new(n, d));
    match (&a, &b) {
        (V::Int(x), V::Int(y)) => match op {
            '+' => Ok(V::Int(x + y)), '-' => Ok(V::Int(x - y)), '*' => Ok(V::Int(x * y)),
            _ if y.is_zero() => c.e_num(p),
            '/' => Ok(q(x.clone(), y.clone())), _ => Ok(V::Int(trunc_rem(x, y))),
        },
        (V::Frac(x), V::Frac(y)) if op != '%' => {
            let (xn, xd, yn, yd) = (x.numer(), x.denom(), y.numer(), y.denom());
            match op {
                '+' => Ok(q(xn * yd + yn * xd, xd * yd)), '-' => Ok(q(xn * yd - yn * xd, xd * yd)), '*' => Ok(q(xn * yn, xd * yd)),
                _ => if yn.is_zero() { c.e_num(p) } else { Ok(q(xn * yd, xd * yn)) },
            }
        }
        (V::Str(x), V::Str(y)) if op == '+' => Ok(V::Str(format!("{}{}", x, y))),
        (V::Arr(x), V::Arr(y)) if op == '+' && compat(&x.1, &y.1) => Ok(mk_arr(x.0.iter().chain(&y.0).cloned().collect(), join(&x.1, &y.1))),
        _ => c.err("BinaryOperatorError", format!("Could not apply operator '{}' on types {} and {} at {}", op, type_disp(&vtype(&a)), type_disp(&vtype(&b)), c.lc(p))),
    }
}
fn sp_un(c: &Cx, v: V, op: char, p: usize) -> R<V> {
    match v {
        V::Int(x) => Ok(V::Int(if op == '-' { -x } else { x })),
        V::Frac(x) => Ok(V::Frac(if op == '-' { BigRational::new(-x.numer(), x.denom().clone()) } else { x })),
        _ => c.err("UnaryOperatorError", format!("Could not apply operator '{}' on type {} at {}", op, type_disp(&vtype(&v)), c.lc(p))),
    }
}
fn all_pairs(o: &O) -> Vec<(String, V)> { let mut r = o.pairs.clone(); if let Some(p) = &o.parent { r.extend(all_pairs(p)) } r }

fn sp_full(c: &Cx, st: &mut St, ps: &[(String, V)], d: usize, b: Option<char>) -> R<V> {
    let p0 = st.p;
    let v = sp_prim(c, st, ps, d, b)?;
    let mut sums: Vec<(V, usize)> = vec![(v, p0)];
    let mut ops: Vec<char> = vec![];
    while let Some(op) = c.at(st.p) {
        if !op_char(op) { break }
        st.p += 1;
        let q = st.p;
        if q >= c.n() { return c.e_end(q) }
        let v2 = sp_prim(c, st, ps, d, b)?;
        if op == '+' || op == '-' { sums.push((v2, q)); ops.push(op) } else {
            let (v1, p1) = sums.pop().unwrap();
            sums.push((sp_bin(c, v1, v2, op, q)?, p1));
        }
    }
    if let Some(ch) = c.at(st.p) {
        if !value_end(ch) { return c.e_char(st.p) }
        if end_delim(ch) && Some(ch) != b { return c.e_close(b, st.p) }
    }
    let mut it = sums.into_iter();
    let mut acc = it.next().unwrap().0;
    for ((v, p), op) in it.zip(ops) { acc = sp_bin(c, acc, v, op, p)? }
    Ok(acc)
}
fn sp_prim(c: &Cx, st: &mut St, ps: &[(String, V)], d: usize, b: Option<char>) -> R<V> {
    st.steps += 1;
    let p = st.p;
    let ch = c.s[p];
    match ch {
        '"' => { let (v, q) = sp_str(c, p)?; st.p = q; Ok(v) }
        '{' => sp_obj(c, st, d + 1),
        '[' | '(' => {
            if d + 1 > 64 { return c.e_depth(p) }
            st.p += 1;
            let (vs, t) = sp_elems(c, st, ps, d + 1, Some(if ch == '[' { ']' } else { ')' }), ch == '[')?;
            Ok(if ch == '[' { mk_arr(vs, t) } else { mk_tup(vs) })
        }
        '<' => sp_include(c, st, ps, d + 1),
        '+' | '-' => {
            if d > 64 { return c.e_depth(p) }
            st.p += 1;
            if st.p >= c.n() { return c.e_end(st.p) }
            let q = st.p;
            let v = sp_prim(c, st, ps, d + 1, b)?;
            sp_un(c, v, ch, q)
        }
        _ if ch.is_ascii_digit() || ch == '.' || ch == ',' => { let (v, q) = sp_num(c, p)?; st.p = q; Ok(v) }
        _ if field_char(ch, true) || ch == '@' => sp_var(c, st, ps, d, b, false),
        _ => c.e_char(p),
    }
}
fn sp_var(c: &Cx, st: &mut St, ps: &[(String, V)], d: usize, b: Option<char>, ad: bool) -> R<V> {
    let p = st.p;
    if d > 64 { return c.e_depth(p) }
    let glob = c.at(p) == Some('@');
    let mut name = String::new();
    if glob { name.push('@'); st.p += 1 }
    let (mut dot, mut dotg) = (false, false);
    while let Some(ch) = c.at(st.p) {
        if ch == '.' {
            st.p += 1;
            match c.at(st.p) {
                None => return c.e_end(st.p),
                Some('@') => dotg = true,
                Some(n) if field_char(n, true) || n.is_ascii_digit() || n == '.' || n == ',' => (),
                Some(_) => return c.e_char(st.p),
            }
            dot = true;
            break;
        }
        if value_end(ch) { break }
        if !field_char(ch, false) { return c.e_char(st.p) }
        name.push(ch);
        st.p += 1;
    }
    let inc = b == Some('>') && !ad;
    let v = match name.as_str() {
        // Not after a dot, where only field names count; the keywords only as the value of an include.
        "null" if !ad => V::Null, "true" if !ad => V::Bool(true), "false" if !ad => V::Bool(false),
        "Obj" if inc => token(1), "Str" if inc => token(2), "Arr" if inc => token(3), "Tup" if inc => token(4),
        "@" => return c.err("InvalidValue", format!("Invalid value \"@\" at {}", c.lc(p))),
        n if glob => match st.g.get(n) { Some(v) => v.clone(), None => return c.err("GlobalNotFound", format!("Global \"{}\" at {} could not be found", n, c.lc(p))) },
        n => match sp_find(ps, n) { Some(v) => v.clone(), None => return c.err("VariableNotFound", format!("Variable \"{}\" at {} could not be found", n, c.lc(p))) },
    };
    if !dot { return Ok(v) }
    let q = st.p;
    let (vs, word): (&[V], &str) = match &v {
        V::Arr(a) => (&a.0, "Arr"),
        V::Tup(t) => (&t.0, "Tup"),
        V::Obj(o) => return if dotg { c.e_char(q) } else { let ps2 = all_pairs(o); sp_var(c, st, &ps2, d + 1, b, true) },
        _ => return c.err("InvalidDot", format!("Invalid use of dot notation on value of type {} at {}; value must be an Obj, Arr, or Tup.", type_disp(&vtype(&v)), c.lc(p))),
    };
    match sp_prim(c, st, ps, d + 1, b)? {
        V::Int(k) => match k.to_u64() {
            None => c.err("InvalidIndex", format!("Invalid index {} at {}", k, c.lc(q))),
            Some(i) => if i < vs.len() as u64 { Ok(vs[i as usize].clone()) } else { c.e_over(format!("{} index {} out of bounds", word, k), q) },
        },
        w => c.e_expected(&T::Int, &vtype(&w), q),
    }
}
fn sp_obj(c: &Cx, st: &mut St, d: usize) -> R<V> {
    if d > 64 { return c.e_depth(st.p) }
    st.p = c.skip(st.p + 1);
    if st.p >= c.n() { return c.e_end(c.n()) }
    Ok(V::Obj(Rc::new(sp_fields(c, st, d, Some('}'))?)))
}
fn sp_fields(c: &Cx, st: &mut St, d: usize, b: Option<char>) -> R<O> {
    let mut ps: Vec<(String, V)> = vec![];
    let mut par: Option<Rc<O>> = None;
    loop {
        let p = st.p;
        let ch = c.s[p];
        if ch == '}' && b.is_some() { st.p += 1; break }
        if end_delim(ch) { return c.e_close(b, p) }
        let (name, fk, p1) = sp_field(c, p)?;
        if fk == FK::Global && st.g.contains_key(&name) { return c.err("DuplicateGlobal", format!("Duplicate global \"{}\" at {}", name, c.lc(p))) }
        if (fk == FK::Parent && par.is_some()) || (fk == FK::Regular && sp_find(&ps, &name).is_some()) { return c.err("DuplicateField", format!("Duplicate field \"{}\" at {}", name, c.lc(p))) }
        let q = c.skip(p1);
        st.p = q;
        if q >= c.n() { return c.e_end(c.n()) }
        let v = sp_full(c, st, &ps, d, b)?;
        match fk {
            FK::Global => {
                if st.g.contains_key(&name) { return c.err("DuplicateGlobal", format!("Duplicate global \"{}\" at {}", name, c.lc(p))) }
                st.g.insert(name, v);
            }
            FK::Regular => ps.push((name, v)),
            FK::Parent => match v { V::Obj(o) => par = Some(o), w => return c.e_over(format!("Type mismatch: expected Obj, found {}", type_disp(&vtype(&w))), q) },
        }
        st.p = c.skip(st.p);
        if st.p >= c.n() { if b.is_some() { return c.e_end(c.n()) } break }
    }
    Ok(O { pairs: ps, parent: par, tag: 0 })
}
fn sp_elems(c: &Cx, st: &mut St, ps: &[(String, V)], d: usize, b: Option<char>, typed: bool) -> R<(Vec<V>, T)> {
    let mut vs = vec![];
    let mut t = T::Any;
    loop {
        let q = c.skip(st.p);
        st.p = q;
        if q >= c.n() { if b.is_some() { return c.e_end(c.n()) } break }
        if b == Some(c.s[q]) { st.p += 1; break }
        if b.is_some() && end_delim(c.s[q]) { return c.e_close(b, q) }
        let v = sp_full(c, st, ps, d, b)?;
        if typed { let u = vtype(&v); t = match msp(&t, &u) { Some(w) => w, None => return c.e_expected(&t, &u, q) } }
        vs.push(v);
    }
    Ok((vs, t))
}
fn io_err(e: std::io::Error) -> PErr { PErr { file: None, kind: "IoError", msg: e.to_string() } }
fn sp_doc(s: &str, file: Option<String>, cyc: HashSet<String>, inc: Inc, d: usize) -> R<(O, Inc)> {
    let c = Cx::new(s, file, cyc);
    let q = c.skip(0);
    if q >= c.n() { return Ok((O { pairs: vec![], parent: None, tag: 0 }, inc)) }
    let mut st = St { p: q, g: HashMap::new(), inc, steps: 0 };
    let o = sp_fields(&c, &mut st, d, None)?;
    Ok((o, st.inc))
}
fn sp_load(ik: IK, path: &str, cyc: HashSet<String>, inc: Inc, d: usize) -> R<(V, Inc)> {
    let s = std::fs::read_to_string(path).map_err(io_err)?;
    Ok(match ik {
        IK::Str => (V::Str(s), inc),
        IK::Obj => { let (o, inc) = sp_doc(&s, Some(path.into()), cyc, inc, d)?; (V::Obj(Rc::new(o)), inc) }
        IK::Arr | IK::Tup => {
            let c = Cx::new(&s, Some(path.into()), cyc);
            let mut st = St { p: 0, g: HashMap::new(), inc, steps: 0 };
            let (vs, t) = sp_elems(&c, &mut st, &[], d, None, ik == IK::Arr)?;
            (if ik == IK::Arr { mk_arr(vs, t) } else { mk_tup(vs) }, st.inc)
        }
    })
}
fn sp_include(c: &Cx, st: &mut St, ps: &[(String, V)], d: usize) -> R<V> {
    if d > 64 { return c.e_depth(st.p) }
    let mut q = c.skip(st.p + 1);
    st.p = q;
    if q >= c.n() { return c.e_end(c.n()) }
    let mut v = sp_full(c, st, ps, d, Some('>'))?;
    let mut ik = IK::Obj;
    if !matches!(v, V::Str(_)) {
        ik = match &v { V::Obj(o) if o.tag == 1 => IK::Obj, V::Obj(o) if o.tag == 2 => IK::Str, V::Obj(o) if o.tag == 3 => IK::Arr, V::Obj(o) if o.tag == 4 => IK::Tup,
            w => return c.err("InvalidIncludeToken", format!("Invalid value of type \"{}\" at {}; must be either a Str value or one of the tokens \"Obj\", \"Arr\", \"Tup\", or \"Str\"", type_disp(&vtype(w)), c.lc(q))) };
        q = c.skip(st.p);
        st.p = q;
        if q >= c.n() { return c.e_end(c.n()) }
        v = sp_full(c, st, ps, d, Some('>'))?;
    }
    let e = c.skip(st.p);
    if e >= c.n() { return c.e_end(c.n()) }
    if c.s[e] != '>' { return c.e_close(Some('>'), e) }
    st.p = e + 1;
    let x = match v { V::Str(x) => x, w => return c.e_expected(&T::Str, &vtype(&w), q) };
    let bad = || c.err("InvalidIncludePath", format!("Invalid include path \"{}\" at {}", x, c.lc(q)));
    let path: PathBuf = match &c.file { Some(f) => Path::new(f).parent().unwrap().join(&x), None => PathBuf::from(&x) };
    if !path.is_file() { return bad() }
    let full = match path.canonicalize() { Ok(p) => p, Err(_) => return bad() };
    let (path, full) = match (path.to_str(), full.to_str()) { (Some(a), Some(b)) => (a.to_string(), b.to_string()), _ => return bad() };
    let mut cyc = c.cyc.clone();
    if let Some(f) = &c.file { match Path::new(f).canonicalize().ok().and_then(|p| p.to_str().map(String::from)) { Some(o) => { cyc.insert(o); } None => return bad() } }
    if cyc.contains(&full) { return c.err("CyclicInclude", format!("Tried to cyclically include file \"{}\" at {}", x, c.lc(q))) }
    if let Some(v) = st.inc.get(&(ik, full.clone())) { return Ok(v.clone()) }
    let (v, mut inc) = sp_load(ik, &path, cyc, st.inc.clone(), d)?;
    inc.insert((ik, full), v.clone());
    st.inc = inc;
    Ok(v)
}
pub fn sp_text(s: &str) -> R<Rc<O>> { Ok(Rc::new(sp_doc(s, None, HashSet::new(), HashMap::new(), 1)?.0)) }
pub fn sp_file(path: &str) -> R<Rc<O>> {
    let s = std::fs::read_to_string(path).map_err(io_err)?;
    Ok(Rc::new(sp_doc(&s, Some(path.into()), HashSet::new(), HashMap::new(), 1)?.0))
}

// ------------------------------------------------------------------ comparing with the real thing
use over::{arr::Arr, obj::{Obj, Pair}, tup::Tup, types::Type, value::Value, ReferenceType};
pub fn ty(t: &Type) -> T {
    match t { Type::Any => T::Any, Type::Null => T::Null, Type::Bool => T::Bool, Type::Int => T::Int, Type::Frac => T::Frac, Type::Str => T::Str, Type::Obj => T::Obj,
        Type::Arr(x) => tarr(ty(x)), Type::Tup(x) => T::Tup(x.iter().map(ty).collect()) }
}
pub fn to_type(t: &T) -> Type {
    match t { T::Any => Type::Any, T::Null => Type::Null, T::Bool => Type::Bool, T::Int => Type::Int, T::Frac => Type::Frac, T::Str => Type::Str, T::Obj => Type::Obj,
        T::Arr(x) => Type::Arr(Box::new(to_type(x))), T::Tup(x) => Type::Tup(x.iter().map(to_type).collect()) }
}
/// Which instance is which: our pointers against their ids.
#[derive(Default)]
pub struct Ids { pub sharing: bool, pub types: bool, pub seen: std::collections::HashSet<(usize, usize)>, pub fwd: HashMap<usize, usize>, pub rev: HashMap<usize, usize>, pub keep: Vec<V> }
impl Ids {
    /// Ok(true): seen before and consistent.
    fn link(&mut self, ptr: usize, id: usize) -> Result<bool, String> {
        if !self.sharing { return Ok(!self.seen.insert((ptr, id))) }
        match (self.fwd.get(&ptr), self.rev.get(&id)) {
            (Some(i), Some(p)) if *i == id && *p == ptr => Ok(true),
            (None, None) => { self.fwd.insert(ptr, id); self.rev.insert(id, ptr); Ok(false) }
            (Some(i), _) => Err(format!("one instance shows up with two ids, {} and {}", i, id)),
            (None, Some(_)) => Err(format!("two different instances share the id {}", id)),
        }
    }
}
fn show(v: &Value) -> String { let s = format!("{:?}", v); if s.len() > 300 { format!("{}...", s.chars().take(300).collect::<String>()) } else { s } }
/// Is `a` the value `v`, with the same sharing?  Err tells where not.
pub fn same(v: &V, a: &Value, ids: &mut Ids, path: &str) -> Result<(), String> {
    let self_types = ids.types;
    let differ = |what: String| Err(format!("at {}: {}", if path.is_empty() { "the value" } else { path }, what));
    match (v, a) {
        (V::Null, Value::Null) => Ok(()),
        (V::Bool(x), Value::Bool(y)) if x == y => Ok(()),
        (V::Int(x), Value::Int(y)) if x == y => Ok(()),
        (V::Frac(x), Value::Frac(y)) if x.numer() == y.numer() && x.denom() == y.denom() => Ok(()),
        (V::Str(x), Value::Str(y)) if x == y => Ok(()),
        (V::Arr(x), Value::Arr(y)) => {
            match ids.link(Rc::as_ptr(x) as usize, y.id()) { Ok(true) => return Ok(()), Ok(false) => ids.keep.push(v.clone()), Err(e) => return differ(e) }
            let t = ty(&y.inner_type());
            if self_types && t != x.1 { return differ(format!("expected element type {}, found {}", type_disp(&x.1), type_disp(&t))) }
            same_seq(&x.0, y.values_ref(), ids, path)
        }
        (V::Tup(x), Value::Tup(y)) => {
            match ids.link(Rc::as_ptr(x) as usize, y.id()) { Ok(true) => return Ok(()), Ok(false) => ids.keep.push(v.clone()), Err(e) => return differ(e) }
            let ts: Vec<T> = y.inner_type_vec().iter().map(ty).collect();
            if self_types && ts != x.1 { return differ(format!("expected type {}, found {}", type_disp(&T::Tup(x.1.clone())), type_disp(&T::Tup(ts)))) }
            same_seq(&x.0, y.values_ref(), ids, path)
        }
        (V::Obj(x), Value::Obj(y)) => same_obj(x, y, ids, path),
        _ => differ(format!("expected {:.300}, found {}", format!("{:?}", v), show(a))),
    }
}
fn same_seq(x: &[V], y: &[Value], ids: &mut Ids, path: &str) -> Result<(), String> {
    if x.len() != y.len() { return Err(format!("at {}: expected {} elements, found {}", path, x.len(), y.len())) }
    for (i, (p, q)) in x.iter().zip(y).enumerate() { same(p, q, ids, &format!("{}.{}", path, i))? }
    Ok(())
}
pub fn same_obj(x: &Rc<O>, y: &Obj, ids: &mut Ids, path: &str) -> Result<(), String> {
    match ids.link(Rc::as_ptr(x) as usize, y.id()) { Ok(true) => return Ok(()), Ok(false) => ids.keep.push(V::Obj(x.clone())), Err(e) => return Err(format!("at {}: {}", path, e)) }
    let ps = y.pairs_ref();
    let names: Vec<&String> = ps.iter().map(|p| &p.0).collect();
    if !x.pairs.iter().map(|p| &p.0).eq(names.iter().copied()) { return Err(format!("at {}: expected fields {:?}, found {:?}", path, x.pairs.iter().map(|p| &p.0).collect::<Vec<_>>(), names)) }
    for (p, q) in x.pairs.iter().zip(ps) { same(&p.1, &q.1, ids, &format!("{}.{}", path, p.0))? }
    match (&x.parent, y.get_parent()) {
        (None, None) => Ok(()),
        (Some(p), Some(q)) => same_obj(p, &q, ids, &format!("{}.^", path)),
        (p, q) => Err(format!("at {}: expected {} parent, found {}", path, if p.is_some() { "a" } else { "no" }, if q.is_some() { "one" } else { "none" })),
    }
}
/// Builds the value through the public API, with the same sharing.
#[derive(Default)]
pub struct Builder { map: HashMap<usize, Value>, keep: Vec<V> }
impl Builder {
    pub fn value(&mut self, v: &V) -> Value {
        let ptr = match v {
            V::Null => return Value::Null, V::Bool(b) => return (*b).into(), V::Int(i) => return i.clone().into(), V::Frac(f) => return f.clone().into(), V::Str(s) => return s.clone().into(),
            V::Arr(x) => Rc::as_ptr(x) as usize, V::Tup(x) => Rc::as_ptr(x) as usize, V::Obj(x) => Rc::as_ptr(x) as usize,
        };
        if let Some(w) = self.map.get(&ptr) { return w.clone() }
        let w: Value = match v {
            V::Arr(x) => { let vs = x.0.iter().map(|e| self.value(e)).collect(); if arr_type(&x.0).ok().as_ref() == Some(&x.1) { Arr::from_values(vs).expect("homogeneous array").into() } else { Arr::from_values_unchecked(vs, to_type(&x.1)).into() } }
            V::Tup(x) => { let vs = x.0.iter().map(|e| self.value(e)).collect(); Tup::from_values(vs).into() }
            V::Obj(x) => {
                let ps = x.pairs.iter().map(|(n, e)| Pair(n.clone(), self.value(e))).collect();
                let par = x.parent.as_ref().map(|p| self.obj(p));
                Obj::from_pairs_unchecked(ps, par).into()
            }
            _ => unreachable!(),
        };
        self.keep.push(v.clone());
        self.map.insert(ptr, w.clone());
        w
    }
    pub fn obj(&mut self, o: &Rc<O>) -> Obj { match self.value(&V::Obj(o.clone())) { Value::Obj(o) => o, _ => unreachable!() } }
}
