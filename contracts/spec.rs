// Specification: what the values, types and texts mean, independently of the code.
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::vx::*;

// ------------------------------------------------------------------ types
pub enum T { Any, Null, Bool, Int, Frac, Str, Arr(Box<T>), Tup(Seq<T>), Obj }
pub open spec fn tarr(t: T) -> T { T::Arr(Box::new(t)) }

/// Two types are compatible: Any goes with everything, the rest structurally.
pub open spec fn compat(a: T, b: T) -> bool decreases a {
    if a is Any || b is Any { true } else {
        match (a, b) {
            (T::Arr(x), T::Arr(y)) => compat(*x, *y),
            (T::Tup(x), T::Tup(y)) => x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> compat(#[trigger] x[i], y[i]),
            _ => a == b,
        }
    }
}
pub open spec fn has_any(a: T) -> bool decreases a {
    match a {
        T::Any => true,
        T::Arr(x) => has_any(*x),
        T::Tup(x) => exists|i: int| 0 <= i < x.len() && has_any(#[trigger] x[i]),
        _ => false,
    }
}
/// The most specific type of two compatible types: every Any replaced by what the other has there.
pub open spec fn join(a: T, b: T) -> T decreases a {
    if b is Any { a } else if a is Any { b } else {
        match (a, b) {
            (T::Arr(x), T::Arr(y)) => tarr(join(*x, *y)),
            (T::Tup(x), T::Tup(y)) => T::Tup(Seq::new(x.len(), |i: int| if 0 <= i < x.len() { join(x[i], y[i]) } else { T::Any })),
            _ => a,
        }
    }
}
pub open spec fn msp(a: T, b: T) -> Option<T> { if compat(a, b) { Some(join(a, b)) } else { None } }
/// r refines a: r is a with some Anys replaced.
pub open spec fn refines(r: T, a: T) -> bool decreases a {
    match a {
        T::Any => true,
        T::Arr(x) => r is Arr && refines(*r->Arr_0, *x),
        T::Tup(x) => r is Tup && r->Tup_0.len() == x.len() && forall|i: int| 0 <= i < x.len() ==> refines(r->Tup_0[i], #[trigger] x[i]),
        _ => r == a,
    }
}
/// The name of a type as shown to users.
pub open spec fn type_disp(t: T) -> Seq<char> decreases t, 0nat {
    match t {
        T::Any => "Any"@, T::Null => "Null"@, T::Bool => "Bool"@, T::Int => "Int"@, T::Frac => "Frac"@, T::Str => "Str"@, T::Obj => "Obj"@,
        T::Arr(x) => "Arr("@ + type_disp(*x) + ")"@,
        T::Tup(x) => "Tup("@ + types_disp(x, x.len() as int) + ")"@,
    }
}
pub open spec fn types_disp(x: Seq<T>, n: int) -> Seq<char> decreases x, n {
    if n <= 0 || n > x.len() { Seq::empty() } else if n == 1 { type_disp(x[0]) } else { types_disp(x, n - 1) + ", "@ + type_disp(x[n - 1]) }
}

// ------------------------------------------------------------------ values
pub enum V { Null, Bool(bool), Int(int), Frac(Q), Str(Seq<char>), Arr(Seq<V>, T), Tup(Seq<V>, Seq<T>), Obj(O) }
pub struct O { pub pairs: Seq<(Seq<char>, V)>, pub parent: Option<Box<O>>, pub tag: int }

pub open spec fn vtype(v: V) -> T {
    match v { V::Null => T::Null, V::Bool(_) => T::Bool, V::Int(_) => T::Int, V::Frac(_) => T::Frac, V::Str(_) => T::Str,
        V::Arr(_, t) => tarr(t), V::Tup(_, ts) => T::Tup(ts), V::Obj(_) => T::Obj }
}
pub open spec fn vtypes(vs: Seq<V>) -> Seq<T> { Seq::new(vs.len(), |i: int| vtype(vs[i])) }

/// Equality as the implementation computes it (it also compares element types first).
pub open spec fn veq(a: V, b: V) -> bool decreases a {
    match (a, b) {
        (V::Null, V::Null) => true,
        (V::Bool(x), V::Bool(y)) => x == y,
        (V::Int(x), V::Int(y)) => x == y,
        (V::Frac(x), V::Frac(y)) => x == y,
        (V::Str(x), V::Str(y)) => x == y,
        (V::Arr(x, t), V::Arr(y, u)) => compat(t, u) && x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> veq(#[trigger] x[i], y[i]),
        (V::Tup(x, t), V::Tup(y, u)) => compat(T::Tup(t), T::Tup(u)) && x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> veq(#[trigger] x[i], y[i]),
        (V::Obj(x), V::Obj(y)) => oeq(x, y),
        _ => false,
    }
}
pub open spec fn oeq(a: O, b: O) -> bool decreases a {
    (match (a.parent, b.parent) { (None, None) => true, (Some(p), Some(q)) => oeq(*p, *q), _ => false })
    && a.pairs.len() == b.pairs.len() && forall|i: int| 0 <= i < a.pairs.len() ==> (#[trigger] a.pairs[i]).0 == b.pairs[i].0 && veq(a.pairs[i].1, b.pairs[i].1)
}
/// Structural equality, as the property states it: kinds and contents, no types, no identity.
pub open spec fn seq_eq(a: V, b: V) -> bool decreases a {
    match (a, b) {
        (V::Null, V::Null) => true,
        (V::Bool(x), V::Bool(y)) => x == y,
        (V::Int(x), V::Int(y)) => x == y,
        (V::Frac(x), V::Frac(y)) => x == y,
        (V::Str(x), V::Str(y)) => x == y,
        (V::Arr(x, _), V::Arr(y, _)) => x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> seq_eq(#[trigger] x[i], y[i]),
        (V::Tup(x, _), V::Tup(y, _)) => x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> seq_eq(#[trigger] x[i], y[i]),
        (V::Obj(x), V::Obj(y)) => soeq(x, y),
        _ => false,
    }
}
pub open spec fn soeq(a: O, b: O) -> bool decreases a {
    (match (a.parent, b.parent) { (None, None) => true, (Some(p), Some(q)) => soeq(*p, *q), _ => false })
    && a.pairs.len() == b.pairs.len() && forall|i: int| 0 <= i < a.pairs.len() ==> (#[trigger] a.pairs[i]).0 == b.pairs[i].0 && seq_eq(a.pairs[i].1, b.pairs[i].1)
}
/// The most specific type common to the first n of these types, from the left; None if there is none.
pub open spec fn msp_fold(ts: Seq<T>, n: nat) -> Option<T> decreases n {
    if n == 0 || n > ts.len() { Some(T::Any) } else { match msp_fold(ts, (n - 1) as nat) { Some(t) => msp(t, ts[n - 1]), None => None } }
}
pub open spec fn arr_type(vs: Seq<V>) -> Option<T> { msp_fold(vtypes(vs), vs.len()) }
/// A value whose arrays are homogeneous and whose containers carry the right types, all the way down.
pub open spec fn vwf(v: V) -> bool decreases v {
    match v {
        V::Arr(vs, t) => arr_type(vs) == Some(t) && forall|i: int| 0 <= i < vs.len() ==> vwf(#[trigger] vs[i]),
        V::Tup(vs, ts) => ts == vtypes(vs) && forall|i: int| 0 <= i < vs.len() ==> vwf(#[trigger] vs[i]),
        V::Obj(o) => owf(o),
        _ => true,
    }
}
pub open spec fn owf(o: O) -> bool decreases o {
    (match o.parent { Some(p) => owf(*p), None => true }) && forall|i: int| 0 <= i < o.pairs.len() ==> vwf((#[trigger] o.pairs[i]).1)
}

// ------------------------------------------------------------------ objects
pub open spec fn find_from(ps: Seq<(Seq<char>, V)>, f: Seq<char>, i: int) -> Option<V> decreases ps.len() - i {
    if i < 0 || i >= ps.len() { None } else if ps[i].0 == f { Some(ps[i].1) } else { find_from(ps, f, i + 1) }
}
pub open spec fn sp_find(ps: Seq<(Seq<char>, V)>, f: Seq<char>) -> Option<V> { find_from(ps, f, 0) }
/// Own field first, then the nearest ancestor.
pub open spec fn sp_get(o: O, f: Seq<char>) -> Option<V> decreases o { match sp_find(o.pairs, f) { Some(v) => Some(v), None => match o.parent { Some(p) => sp_get(*p, f), None => None } } }
pub open spec fn sp_source(o: O, f: Seq<char>) -> Option<(V, O)> decreases o { match sp_find(o.pairs, f) { Some(v) => Some((v, o)), None => match o.parent { Some(p) => sp_source(*p, f), None => None } } }
/// Field names: '_' or alphabetic first, then '_', alphabetic or ASCII digit.
pub open spec fn name_char(c: char, first: bool) -> bool { is_alpha(c) || c == '_' || (is_digit_c(c) && !first) }
pub open spec fn valid_name(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> name_char(#[trigger] s[i], i == 0) }
/// What the parser's character test accepts: '^' is additionally allowed in front.
pub open spec fn field_char(c: char, first: bool) -> bool { if is_alpha(c) { true } else if is_digit_c(c) { !first } else if c == '_' { true } else if c == '^' { first } else { false } }

// ------------------------------------------------------------------ writing
/// The value nests at most d levels of containers.
pub open spec fn deep_le(v: V, d: int) -> bool decreases v {
    match v {
        V::Arr(vs, _) => d > 0 && forall|i: int| 0 <= i < vs.len() ==> deep_le(#[trigger] vs[i], d - 1),
        V::Tup(vs, _) => d > 0 && forall|i: int| 0 <= i < vs.len() ==> deep_le(#[trigger] vs[i], d - 1),
        V::Obj(o) => odeep_le(o, d),
        _ => d >= 0,
    }
}
pub open spec fn odeep_le(o: O, d: int) -> bool decreases o {
    d > 0 && (match o.parent { Some(p) => odeep_le(*p, d - 1), None => true }) && forall|i: int| 0 <= i < o.pairs.len() ==> deep_le((#[trigger] o.pairs[i]).1, d - 1)
}
/// Levels that can still be indented below this indentation without overflow.
pub open spec fn room(n: int) -> int { (0x4000_0000_0000_0000 - n) / 4 }
pub open spec fn esc_c(c: char) -> Seq<char> {
    if c == '\\' { "\\\\"@ } else if c == '"' { "\\\""@ } else if c == '\'' { "\\'"@ } else if c == '$' { "\\$"@ } else if c == '\n' { "\\n"@ } else if c == '\r' { "\\r"@ } else if c == '\t' { "\\t"@ } else { seq![c] }
}
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { esc(s.drop_last()) + esc_c(s.last()) } }
pub open spec fn sp(n: int) -> Seq<char> { rep(" "@, if n < 0 { 0 } else { n as nat }) }
pub open spec fn fmt_q(q: Q) -> Seq<char> { if q.d == 1 { dec(q.n) + ".0"@ } else { dec(q.n) + seq!['/'] + dec(q.d) } }
pub open spec fn fmt_s(s: Seq<char>) -> Seq<char> { "\""@ + esc(s) + "\""@ }
pub open spec fn fmt_v(v: V, n: int) -> Seq<char> decreases v, 0nat {
    match v { V::Null => "null"@, V::Bool(b) => if b { "true"@ } else { "false"@ }, V::Int(i) => dec(i), V::Frac(q) => fmt_q(q), V::Str(s) => fmt_s(s),
        V::Arr(vs, _) => fmt_a(vs, true, n), V::Tup(vs, _) => fmt_t(vs, true, n), V::Obj(o) => fmt_o(o, true, n) }
}
pub open spec fn fmt_lines(vs: Seq<V>, k: int, n: int) -> Seq<char> decreases vs, k {
    if k <= 0 || k > vs.len() { Seq::empty() } else { fmt_lines(vs, k - 1, n) + (sp(n) + fmt_v(vs[k - 1], n + 4) + "\n"@) }
}
pub open spec fn fmt_a(vs: Seq<V>, full: bool, n: int) -> Seq<char> decreases vs, vs.len() + 1 {
    if vs.len() == 0 { if full { "[]"@ } else { Seq::empty() } }
    else if vs.len() == 1 { if full { "["@ + fmt_v(vs[0], n) + "]"@ } else { fmt_v(vs[0], n) } }
    else { (if full { "[\n"@ } else { Seq::empty() }) + fmt_lines(vs, vs.len() as int, n) + (if full { sp(n - 4) + "]"@ } else { Seq::empty() }) }
}
pub open spec fn fmt_t(vs: Seq<V>, full: bool, n: int) -> Seq<char> decreases vs, vs.len() + 1 {
    if vs.len() == 0 { if full { "()"@ } else { Seq::empty() } }
    else if vs.len() == 1 { if full { "("@ + fmt_v(vs[0], n) + ")"@ } else { fmt_v(vs[0], n) } }
    else { (if full { "(\n"@ } else { Seq::empty() }) + fmt_lines(vs, vs.len() as int, n) + (if full { sp(n - 4) + ")"@ } else { Seq::empty() }) }
}
pub open spec fn fmt_fields(ps: Seq<(Seq<char>, V)>, k: int, n: int) -> Seq<char> decreases ps, k {
    if k <= 0 || k > ps.len() { Seq::empty() } else { fmt_fields(ps, k - 1, n) + (sp(n) + ps[k - 1].0 + ": "@ + fmt_v(ps[k - 1].1, n + 4) + "\n"@) }
}
pub open spec fn fmt_head(o: O, full: bool, n: int) -> Seq<char> decreases o, 0nat {
    (if full { "{\n"@ } else { Seq::empty() }) + (match o.parent { Some(p) => sp(n) + "^: "@ + fmt_o(*p, true, n + 4) + "\n"@, None => Seq::empty() })
}
pub open spec fn fmt_o(o: O, full: bool, n: int) -> Seq<char> decreases o, 1nat {
    if o.pairs.len() == 0 && o.parent is None { if full { "{}"@ } else { Seq::empty() } }
    else {
        fmt_head(o, full, n)
        + fmt_fields(o.pairs, o.pairs.len() as int, n)
        + (if full { sp(n - 4) + "}"@ } else { Seq::empty() })
    }
}

// ------------------------------------------------------------------ characters of the grammar
pub open spec fn end_delim(c: char) -> bool { c == ')' || c == ']' || c == '}' || c == '>' }
pub open spec fn op_char(c: char) -> bool { c == '+' || c == '-' || c == '*' || c == '/' || c == '%' }
pub open spec fn value_end(c: char) -> bool { is_ws(c) || c == '#' || end_delim(c) || op_char(c) }
pub open spec fn unesc(c: char) -> Option<char> {
    if c == '\\' || c == '"' || c == '\'' || c == '$' { Some(c) } else if c == 'n' { Some('\n') } else if c == 'r' { Some('\r') } else if c == 't' { Some('\t') } else { None }
}
pub open spec fn reserved(s: Seq<char>) -> bool { s == "@"@ || s == "null"@ || s == "true"@ || s == "false"@ || s == "Obj"@ || s == "Str"@ || s == "Arr"@ || s == "Tup"@ }

// ------------------------------------------------------------------ positions
/// Line and column of the p-th character: newlines before it, and characters since the last one.
pub open spec fn ln(s: Seq<char>, p: int) -> int decreases p { if p <= 0 || p > s.len() { 1 } else { ln(s, p - 1) + if s[p - 1] == '\n' { 1int } else { 0 } } }
pub open spec fn cl(s: Seq<char>, p: int) -> int decreases p { if p <= 0 || p > s.len() { 1 } else if s[p - 1] == '\n' { 1 } else { cl(s, p - 1) + 1 } }
pub open spec fn at(s: Seq<char>, p: int) -> Option<char> { if 0 <= p < s.len() { Some(s[p]) } else { None } }
