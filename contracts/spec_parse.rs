// ------------------------------------------------------------------ the document language
// What a text denotes, written as functions from positions to results.  `Cx` is what stays fixed while
// one file is read, `St` what changes: position, globals, and the files included so far.
pub use crate::parse::{BinaryOp, UnaryOp, op_of};
pub enum IK { Obj, Str, Arr, Tup }
pub enum FK { Global, Parent, Regular }
pub struct Cx { pub s: Seq<char>, pub file: Option<Seq<char>>, pub cyc: Set<Seq<char>> }
pub struct St { pub p: int, pub g: Map<Seq<char>, V>, pub inc: Map<(IK, Seq<char>), V> }
pub enum K {
    BinOp(T, T, BinaryOp, int, int), Cyclic(Seq<char>, int, int), DupField(Seq<char>, int, int), DupGlobal(Seq<char>, int, int),
    Expected(T, T, int, int), NoGlobal(Seq<char>, int, int), BadIndex(int, int, int), Closing(Option<char>, char, int, int),
    BadDot(T, int, int), BadEscape(char, int, int), FieldChar(char, int, int), FieldName(Seq<char>, int, int),
    IncPath(Seq<char>, int, int), IncToken(T, int, int), Numeric(int, int), BadValue(Seq<char>, int, int), ValueChar(char, int, int),
    MaxDepth(int, int), UnOp(T, UnaryOp, int, int), End(int), NoVar(Seq<char>, int, int),
    Io(Seq<char>), Over(Seq<char>), ParseInt(Seq<char>), Other,
}
pub struct PErr { pub file: Option<Seq<char>>, pub kind: K }
pub open spec fn err<X>(c: Cx, k: K) -> Result<X, PErr> { Err(PErr { file: c.file, kind: k }) }
pub open spec fn eline(c: Cx, p: int) -> int { ln(c.s, p) }
pub open spec fn ecol(c: Cx, p: int) -> int { cl(c.s, p) }
pub open spec fn e_end<X>(c: Cx, p: int) -> Result<X, PErr> { err(c, K::End(ln(c.s, p))) }
pub open spec fn e_depth<X>(c: Cx, p: int) -> Result<X, PErr> { err(c, K::MaxDepth(ln(c.s, p), cl(c.s, p))) }
pub open spec fn e_char<X>(c: Cx, p: int) -> Result<X, PErr> { err(c, K::ValueChar(c.s[p], ln(c.s, p), cl(c.s, p))) }
pub open spec fn e_close<X>(c: Cx, b: Option<char>, p: int) -> Result<X, PErr> { err(c, K::Closing(b, c.s[p], ln(c.s, p), cl(c.s, p))) }
/// An error of the data model, with the position appended.
pub open spec fn e_over<X>(c: Cx, m: Seq<char>, p: int) -> Result<X, PErr> { err(c, K::Over(over_at(m, ln(c.s, p), cl(c.s, p)))) }
pub open spec fn over_at(m: Seq<char>, l: int, co: int) -> Seq<char> { m + " at line "@ + dec(l) + ", col "@ + dec(co) }
pub open spec fn m_mismatch(a: T, b: T) -> Seq<char> { "Type mismatch: expected "@ + type_disp(a) + ", found "@ + type_disp(b) }
pub open spec fn m_arr_bounds(i: int) -> Seq<char> { "Arr index "@ + dec(i) + " out of bounds"@ }
pub open spec fn m_tup_bounds(i: int) -> Seq<char> { "Tup index "@ + dec(i) + " out of bounds"@ }

// ------------------------------------------------------------------ blanks
/// Where a comment's line ends (just after the newline, or at the end of the text).
pub open spec fn line_end(s: Seq<char>, p: int) -> int decreases s.len() - p { if p < 0 || p >= s.len() { s.len() as int } else if s[p] == '\n' { p + 1 } else { line_end(s, p + 1) } }
/// The first position from p that is neither whitespace nor inside a comment.
pub open spec fn skip(s: Seq<char>, p: int) -> int decreases s.len() - p {
    if p < 0 || p >= s.len() { s.len() as int }
    else if s[p] == '#' { let e = line_end(s, p); if p < e <= s.len() { skip(s, e) } else { s.len() as int } }
    else if is_ws(s[p]) { skip(s, p + 1) }
    else { p }
}

// ------------------------------------------------------------------ names, numbers, strings
/// Reads name characters up to the colon: the name, the position after it, and the offending position if any.
pub open spec fn field_scan(s: Seq<char>, p: int, acc: Seq<char>, first: bool) -> (Seq<char>, int, bool) decreases s.len() - p {
    if p < 0 || p >= s.len() { (acc, p, true) }
    else if s[p] == ':' && !first { (acc, p + 1, true) }
    else if field_char(s[p], first) { field_scan(s, p + 1, acc.push(s[p]), false) }
    else { (acc, p, false) }
}
pub open spec fn sp_field(c: Cx, p: int) -> Result<(Seq<char>, FK, int), PErr> {
    let glob = at(c.s, p) == Some('@');
    let (name, q, ok) = if glob { field_scan(c.s, p + 1, seq!['@'], true) } else { field_scan(c.s, p, Seq::empty(), true) };
    if !ok { err(c, K::FieldChar(c.s[q], ln(c.s, q), cl(c.s, q))) }
    else if reserved(name) { err(c, K::FieldName(name, ln(c.s, p), cl(c.s, p))) }
    else if name == "^"@ { Ok((name, FK::Parent, q)) }
    else if name.len() > 0 && name[0] == '^' || name.len() > 1 && name[0] == '@' && name[1] == '^' { err(c, K::FieldName(name, ln(c.s, p), cl(c.s, p))) }
    else { Ok((name, if glob { FK::Global } else { FK::Regular }, q)) }
}
pub enum NumScan { Done(Seq<char>, Seq<char>, bool, int), Bad(int) }
/// Digits before and after the point; the last argument tells whether an underscore was just read.
pub open spec fn num_scan(s: Seq<char>, p: int, a: Seq<char>, b: Seq<char>, dec: bool, under: bool) -> NumScan decreases s.len() - p {
    if p < 0 || p >= s.len() || value_end(s[p]) { NumScan::Done(a, b, dec, p) }
    else if is_digit_c(s[p]) { if dec { num_scan(s, p + 1, a, b.push(s[p]), dec, false) } else { num_scan(s, p + 1, a.push(s[p]), b, dec, false) } }
    else if s[p] == '.' || s[p] == ',' { if dec { NumScan::Bad(p) } else { num_scan(s, p + 1, a, b, true, false) } }
    else if s[p] == '_' { if under { NumScan::Bad(p) } else { num_scan(s, p + 1, a, b, dec, true) } }
    else { NumScan::Bad(p) }
}
pub open spec fn sp_num(c: Cx, p: int) -> Result<(V, int), PErr> {
    match num_scan(c.s, p, Seq::empty(), Seq::empty(), false, false) {
        NumScan::Bad(q) => e_char(c, q),
        NumScan::Done(a, b, dec, q) =>
            if a.len() == 0 && (!dec || b.len() == 0) { err(c, K::Numeric(ln(c.s, p), cl(c.s, p))) }
            else if dec { Ok((V::Frac(rat(digits_val(a + b), ipow(10, b.len()))), q)) }
            else { Ok((V::Int(digits_val(a)), q)) },
    }
}
pub enum StrScan { Done(Seq<char>, int), Bad(int), End }
/// Characters up to the closing quote; `e` tells whether a backslash was just read.
pub open spec fn str_scan(s: Seq<char>, p: int, acc: Seq<char>, e: bool) -> StrScan decreases s.len() - p {
    if p < 0 || p >= s.len() { StrScan::End }
    else if e { match unesc(s[p]) { Some(ch) => str_scan(s, p + 1, acc.push(ch), false), None => StrScan::Bad(p) } }
    else if s[p] == '"' { StrScan::Done(acc, p + 1) }
    else if s[p] == '\\' { str_scan(s, p + 1, acc, true) }
    else { str_scan(s, p + 1, acc.push(s[p]), false) }
}
pub open spec fn sp_str(c: Cx, p: int) -> Result<(V, int), PErr> {
    match str_scan(c.s, p + 1, Seq::empty(), false) {
        StrScan::Done(x, q) => Ok((V::Str(x), q)),
        StrScan::Bad(q) => err(c, K::BadEscape(c.s[q], ln(c.s, q), cl(c.s, q))),
        StrScan::End => e_end(c, c.s.len() as int),
    }
}

// ------------------------------------------------------------------ operations
pub open spec fn promote(a: V, b: V) -> (V, V) {
    match (a, b) { (V::Int(x), V::Frac(_)) => (V::Frac(Q { n: x, d: 1 }), b), (V::Frac(_), V::Int(y)) => (a, V::Frac(Q { n: y, d: 1 })), _ => (a, b) }
}
pub open spec fn sp_bin(c: Cx, a0: V, b0: V, op: BinaryOp, l: int, co: int) -> Result<V, PErr> {
    let (a, b) = promote(a0, b0);
    let bad = err::<V>(c, K::BinOp(vtype(a), vtype(b), op, l, co));
    let zero = err::<V>(c, K::Numeric(l, co));
    match op {
        BinaryOp::Plus => match (a, b) {
            (V::Int(x), V::Int(y)) => Ok(V::Int(x + y)),
            (V::Frac(x), V::Frac(y)) => Ok(V::Frac(q_add(x, y))),
            (V::Str(x), V::Str(y)) => Ok(V::Str(x + y)),
            (V::Arr(x, t), V::Arr(y, u)) => if compat(t, u) { Ok(V::Arr(x + y, join(t, u))) } else { bad },
            _ => bad,
        },
        BinaryOp::Minus => match (a, b) { (V::Int(x), V::Int(y)) => Ok(V::Int(x - y)), (V::Frac(x), V::Frac(y)) => Ok(V::Frac(q_sub(x, y))), _ => bad },
        BinaryOp::Mult => match (a, b) { (V::Int(x), V::Int(y)) => Ok(V::Int(x * y)), (V::Frac(x), V::Frac(y)) => Ok(V::Frac(q_mul(x, y))), _ => bad },
        BinaryOp::Div => match (a, b) {
            (V::Int(x), V::Int(y)) => if y == 0 { zero } else { Ok(V::Frac(rat(x, y))) },
            (V::Frac(x), V::Frac(y)) => if y.n == 0 { zero } else { Ok(V::Frac(q_div(x, y))) },
            _ => bad,
        },
        BinaryOp::Mod => match (a, b) { (V::Int(x), V::Int(y)) => if y == 0 { zero } else { Ok(V::Int(trunc_rem(x, y))) }, _ => bad },
    }
}
pub open spec fn sp_un(c: Cx, v: V, op: UnaryOp, l: int, co: int) -> Result<V, PErr> {
    match (op, v) {
        (UnaryOp::Plus, V::Int(_)) => Ok(v),
        (UnaryOp::Plus, V::Frac(_)) => Ok(v),
        (UnaryOp::Minus, V::Int(x)) => Ok(V::Int(-x)),
        (UnaryOp::Minus, V::Frac(q)) => Ok(V::Frac(Q { n: -q.n, d: q.d })),
        _ => err(c, K::UnOp(vtype(v), op, l, co)),
    }
}
/// Sums from left to right; every summand comes with the position errors are reported at.
pub open spec fn sp_fold(c: Cx, a: V, vals: Seq<(V, int, int)>, ops: Seq<BinaryOp>) -> Result<V, PErr> decreases ops.len() {
    if ops.len() == 0 || vals.len() == 0 { Ok(a) }
    else { match sp_bin(c, a, vals[0].0, ops[0], vals[0].1, vals[0].2) { Ok(v) => sp_fold(c, v, vals.skip(1), ops.skip(1)), Err(e) => Err(e) } }
}
pub open spec fn sp_value_end(c: Cx, p: int, b: Option<char>) -> Result<(), PErr> {
    match at(c.s, p) {
        None => Ok(()),
        Some(ch) => if !value_end(ch) { e_char(c, p) } else if end_delim(ch) && Some(ch) != b { e_close(c, b, p) } else { Ok(()) },
    }
}

// ------------------------------------------------------------------ names in scope
pub enum VarScan { Done(Seq<char>, int, bool, bool), Bad(int), End(int) }
/// The name up to a dot or the end of the value: name, position, whether a dot follows, whether '@' follows the dot.
pub open spec fn var_scan(s: Seq<char>, p: int, acc: Seq<char>) -> VarScan decreases s.len() - p {
    if p < 0 || p >= s.len() { VarScan::Done(acc, p, false, false) }
    else if s[p] == '.' {
        match at(s, p + 1) {
            None => VarScan::End(p + 1),
            Some(n) => if n == '@' { VarScan::Done(acc, p + 1, true, true) } else if field_char(n, true) || is_digit_c(n) || n == '.' || n == ',' { VarScan::Done(acc, p + 1, true, false) } else { VarScan::Bad(p + 1) },
        }
    }
    else if value_end(s[p]) { VarScan::Done(acc, p, false, false) }
    else if field_char(s[p], false) { var_scan(s, p + 1, acc.push(s[p])) }
    else { VarScan::Bad(p) }
}
pub open spec fn token(tag: int) -> V { V::Obj(O { pairs: Seq::empty(), parent: None, tag }) }
/// What a name means: the constants and the include keywords (the latter only as the value of an include) do not count after a dot.
pub open spec fn sp_lookup(c: Cx, g: Map<Seq<char>, V>, ps: Seq<(Seq<char>, V)>, name: Seq<char>, glob: bool, l: int, co: int, b: Option<char>, ad: bool) -> Result<V, PErr> {
    let inc = b == Some('>') && !ad;
    if !ad && name == "null"@ { Ok(V::Null) } else if !ad && name == "true"@ { Ok(V::Bool(true)) } else if !ad && name == "false"@ { Ok(V::Bool(false)) }
    else if inc && name == "Obj"@ { Ok(token(1)) } else if inc && name == "Str"@ { Ok(token(2)) } else if inc && name == "Arr"@ { Ok(token(3)) } else if inc && name == "Tup"@ { Ok(token(4)) }
    else if name == "@"@ { err(c, K::BadValue(name, l, co)) }
    else if glob { if g.dom().contains(name) { Ok(g[name]) } else { err(c, K::NoGlobal(name, l, co)) } }
    else { match sp_find(ps, name) { Some(v) => Ok(v), None => err(c, K::NoVar(name, l, co)) } }
}
/// The fields of an object followed by those of its ancestors, nearest first.
pub open spec fn all_pairs(o: O) -> Seq<(Seq<char>, V)> decreases o { match o.parent { Some(p) => o.pairs + all_pairs(*p), None => o.pairs } }

// ------------------------------------------------------------------ values
/// Any value, with the operators that follow it directly.
#[verifier::opaque] pub open spec fn sp_full(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>) -> Result<(V, St), PErr>
    decreases 70 - d, 0int, c.s.len() - st.p, 3int
{
    match sp_prim(c, st, ps, d, b) {
        Err(e) => Err(e),
        Ok((v, st1)) => if !(st.p < st1.p <= c.s.len()) { err(c, K::Other) } else {
            match sp_chain(c, st1, ps, d, b, seq![(v, ln(c.s, st.p), cl(c.s, st.p))], Seq::empty()) {
                Err(e) => Err(e),
                Ok((vals, ops, st2)) => match sp_value_end(c, st2.p, b) {
                    Err(e) => Err(e),
                    Ok(_) => match sp_fold(c, vals[0].0, vals.skip(1), ops) { Err(e) => Err(e), Ok(w) => Ok((w, st2)) },
                },
            }
        },
    }
}
/// The operators and operands after the first value: products are computed at once, the summands are collected.
#[verifier::opaque] pub open spec fn sp_chain(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, vals: Seq<(V, int, int)>, ops: Seq<BinaryOp>) -> Result<(Seq<(V, int, int)>, Seq<BinaryOp>, St), PErr>
    decreases 70 - d, 0int, c.s.len() - st.p, 2int
{
    match at(c.s, st.p) {
        None => Ok((vals, ops, st)),
        Some(ch) => match op_of(ch) {
            None => Ok((vals, ops, st)),
            Some(op) => {
                let q = st.p + 1;
                if q >= c.s.len() { e_end(c, q) } else {
                    match sp_prim(c, St { p: q, ..st }, ps, d, b) {
                        Err(e) => Err(e),
                        Ok((v2, st2)) => if !(q < st2.p <= c.s.len()) { err(c, K::Other) } else if op is Mult || op is Div || op is Mod {
                            match sp_bin(c, vals.last().0, v2, op, ln(c.s, q), cl(c.s, q)) {
                                Err(e) => Err(e),
                                Ok(w) => sp_chain(c, st2, ps, d, b, vals.drop_last().push((w, vals.last().1, vals.last().2)), ops),
                            }
                        } else { sp_chain(c, st2, ps, d, b, vals.push((v2, ln(c.s, q), cl(c.s, q))), ops.push(op)) },
                    }
                }
            }
        },
    }
}
/// One operand.
#[verifier::opaque] pub open spec fn sp_prim(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>) -> Result<(V, St), PErr>
    decreases 70 - d, 0int, c.s.len() - st.p, 1int
{
    match at(c.s, st.p) {
        None => err(c, K::Other),
        Some(ch) =>
            if d > 65 { err(c, K::Other) }
            else if ch == '"' { match sp_str(c, st.p) { Ok((v, q)) => Ok((v, St { p: q, ..st })), Err(e) => Err(e) } }
            else if ch == '{' { sp_obj(c, st, d + 1) }
            else if ch == '[' { sp_arr(c, st, ps, d + 1) }
            else if ch == '(' { sp_tup(c, st, ps, d + 1) }
            else if ch == '<' { sp_include(c, st, ps, d + 1) }
            else if ch == '+' { sp_unary(c, st, ps, d, b, UnaryOp::Plus) }
            else if ch == '-' { sp_unary(c, st, ps, d, b, UnaryOp::Minus) }
            else if is_digit_c(ch) || ch == '.' || ch == ',' { match sp_num(c, st.p) { Ok((v, q)) => Ok((v, St { p: q, ..st })), Err(e) => Err(e) } }
            else if field_char(ch, true) || ch == '@' { sp_var(c, st, ps, d, b, false) }
            else { e_char(c, st.p) },
    }
}
#[verifier::opaque] pub open spec fn sp_unary(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, op: UnaryOp) -> Result<(V, St), PErr>
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    if d > 64 { e_depth(c, st.p) } else {
        let q = st.p + 1;
        if q >= c.s.len() { e_end(c, q) } else {
            match sp_prim(c, St { p: q, ..st }, ps, d + 1, b) {
                Err(e) => Err(e),
                Ok((v, st2)) => match sp_un(c, v, op, ln(c.s, q), cl(c.s, q)) { Ok(w) => Ok((w, st2)), Err(e) => Err(e) },
            }
        }
    }
}
/// The element of a sequence an index value denotes.
pub open spec fn sp_index(c: Cx, vs: Seq<V>, i: V, q: int, bounds: spec_fn(int) -> Seq<char>) -> Result<V, PErr> {
    match i {
        V::Int(k) => if !(0 <= k <= usize::MAX) { err(c, K::BadIndex(k, ln(c.s, q), cl(c.s, q))) } else if k < vs.len() { Ok(vs[k]) } else { e_over(c, bounds(k), q) },
        _ => err(c, K::Expected(T::Int, vtype(i), ln(c.s, q), cl(c.s, q))),
    }
}
#[verifier::opaque] pub open spec fn sp_var(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, ad: bool) -> Result<(V, St), PErr>
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    if d > 64 { e_depth(c, st.p) } else {
        let glob = at(c.s, st.p) == Some('@');
        match if glob { var_scan(c.s, st.p + 1, seq!['@']) } else { var_scan(c.s, st.p, Seq::empty()) } {
            VarScan::Bad(q) => e_char(c, q),
            VarScan::End(q) => e_end(c, q),
            VarScan::Done(name, q, dot, dotg) => match sp_lookup(c, st.g, ps, name, glob, ln(c.s, st.p), cl(c.s, st.p), b, ad) {
                Err(e) => Err(e),
                Ok(v) => if !dot { Ok((v, St { p: q, ..st })) } else {
                    match v {
                        V::Arr(vs, _) => match sp_prim(c, St { p: q, ..st }, ps, d + 1, b) {
                            Err(e) => Err(e),
                            Ok((i, st2)) => match sp_index(c, vs, i, q, |k: int| m_arr_bounds(k)) { Ok(w) => Ok((w, st2)), Err(e) => Err(e) },
                        },
                        V::Tup(vs, _) => match sp_prim(c, St { p: q, ..st }, ps, d + 1, b) {
                            Err(e) => Err(e),
                            Ok((i, st2)) => match sp_index(c, vs, i, q, |k: int| m_tup_bounds(k)) { Ok(w) => Ok((w, st2)), Err(e) => Err(e) },
                        },
                        V::Obj(o) => if dotg { err(c, K::ValueChar('@', ln(c.s, q), cl(c.s, q))) } else { sp_var(c, St { p: q, ..st }, all_pairs(o), d + 1, b, true) },
                        _ => err(c, K::BadDot(vtype(v), ln(c.s, st.p), cl(c.s, st.p))),
                    }
                },
            },
        }
    }
}

// ------------------------------------------------------------------ containers
#[verifier::opaque] pub open spec fn sp_obj(c: Cx, st: St, d: int) -> Result<(V, St), PErr>
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    if d > 64 { e_depth(c, st.p) } else {
        let q = skip(c.s, st.p + 1);
        if !(st.p < q < c.s.len()) { e_end(c, c.s.len() as int) } else {
            match sp_fields(c, St { p: q, ..st }, Seq::empty(), None, d, Some('}')) {
                Err(e) => Err(e),
                Ok((o, st2)) => Ok((V::Obj(o), st2)),
            }
        }
    }
}
/// Field/value pairs up to the end of the object, after those already read.
#[verifier::opaque] pub open spec fn sp_fields(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, par: Option<O>, d: int, b: Option<char>) -> Result<(O, St), PErr>
    decreases 70 - d, 0int, c.s.len() - st.p, 5int
{
    match sp_pair(c, st, ps, par, d, b) {
        Err(e) => Err(e),
        Ok((more, ps2, par2, st2)) =>
            if !more { Ok((O { pairs: ps2, parent: match par2 { Some(o) => Some(Box::new(o)), None => None }, tag: 0 }, st2)) }
            else if !(st.p < st2.p <= c.s.len()) { err(c, K::Other) }
            else { sp_fields(c, st2, ps2, par2, d, b) },
    }
}
pub open spec fn has_field(ps: Seq<(Seq<char>, V)>, f: Seq<char>) -> bool { exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == f }
#[verifier::opaque] pub open spec fn sp_pair(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, par: Option<O>, d: int, b: Option<char>) -> Result<(bool, Seq<(Seq<char>, V)>, Option<O>, St), PErr>
    decreases 70 - d, 0int, c.s.len() - st.p, 4int
{
    match at(c.s, st.p) {
        None => err(c, K::Other),
        Some(ch) =>
            if ch == '}' && b is Some { Ok((false, ps, par, St { p: st.p + 1, ..st })) }
            else if end_delim(ch) { e_close(c, b, st.p) }
            else { match sp_field(c, st.p) {
                Err(e) => Err(e),
                Ok((name, fk, p1)) =>
                    if fk is Global && st.g.dom().contains(name) { err(c, K::DupGlobal(name, ln(c.s, st.p), cl(c.s, st.p))) }
                    else if fk is Parent && par is Some { err(c, K::DupField("^"@, ln(c.s, st.p), cl(c.s, st.p))) }
                    else if fk is Regular && has_field(ps, name) { err(c, K::DupField(name, ln(c.s, st.p), cl(c.s, st.p))) }
                    else {
                        let q = skip(c.s, p1);
                        if !(st.p < q < c.s.len()) { e_end(c, c.s.len() as int) } else {
                            match sp_full(c, St { p: q, ..st }, ps, d, b) {
                                Err(e) => Err(e),
                                Ok((v, st2)) => {
                                    let q2 = skip(c.s, st2.p);
                                    let st3 = St { p: q2, g: if fk is Global { st2.g.insert(name, v) } else { st2.g }, inc: st2.inc };
                                    let ps3 = if fk is Regular { ps.push((name, v)) } else { ps };
                                    let par3 = if fk is Parent && v is Obj { Some(v->Obj_0) } else { par };
                                    if fk is Global && st2.g.dom().contains(name) { err(c, K::DupGlobal(name, ln(c.s, st.p), cl(c.s, st.p))) }
                                    else if fk is Parent && !(v is Obj) { e_over(c, m_mismatch(T::Obj, vtype(v)), q) }
                                    else if q2 >= c.s.len() && b is Some { e_end(c, c.s.len() as int) }
                                    else { Ok((q2 < c.s.len(), ps3, par3, st3)) }
                                }
                            }
                        }
                    },
            } },
    }
}
/// Values up to the closing delimiter (or the end of the text where there is none), after those already read;
/// with a type, that of the array so far.
#[verifier::opaque] pub open spec fn sp_elems(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, vs: Seq<V>, t: Option<T>) -> Result<(Seq<V>, Option<T>, St), PErr>
    decreases 70 - d, 0int, c.s.len() - st.p, 5int
{
    let q = skip(c.s, st.p);
    if !(st.p <= q < c.s.len()) { if b is Some { e_end(c, c.s.len() as int) } else { Ok((vs, t, St { p: c.s.len() as int, ..st })) } }
    else if b is Some && c.s[q] == b->Some_0 { Ok((vs, t, St { p: q + 1, ..st })) }
    else if b is Some && end_delim(c.s[q]) { e_close(c, b, q) }
    else {
        match sp_full(c, St { p: q, ..st }, ps, d, b) {
            Err(e) => Err(e),
            Ok((v, st2)) =>
                if !(q < st2.p <= c.s.len()) { err(c, K::Other) }
                else { match t {
                    None => sp_elems(c, st2, ps, d, b, vs.push(v), t),
                    Some(u) => match msp(u, vtype(v)) {
                        None => err(c, K::Expected(u, vtype(v), ln(c.s, q), cl(c.s, q))),
                        Some(w) => sp_elems(c, st2, ps, d, b, vs.push(v), Some(w)),
                    },
                } },
        }
    }
}
#[verifier::opaque] pub open spec fn sp_arr(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int) -> Result<(V, St), PErr>
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    if d > 64 || st.p >= c.s.len() { e_depth(c, st.p) } else {
        match sp_elems(c, St { p: st.p + 1, ..st }, ps, d, Some(']'), Seq::empty(), Some(T::Any)) { Ok((vs, t, st2)) => Ok((V::Arr(vs, t->Some_0), st2)), Err(e) => Err(e) }
    }
}
#[verifier::opaque] pub open spec fn sp_tup(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int) -> Result<(V, St), PErr>
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    if d > 64 || st.p >= c.s.len() { e_depth(c, st.p) } else {
        match sp_elems(c, St { p: st.p + 1, ..st }, ps, d, Some(')'), Seq::empty(), None) { Ok((vs, _, st2)) => Ok((V::Tup(vs, vtypes(vs)), st2)), Err(e) => Err(e) }
    }
}

// ------------------------------------------------------------------ files
/// A whole document.
#[verifier::opaque] pub open spec fn sp_doc(c: Cx, inc: Map<(IK, Seq<char>), V>, d: int) -> Result<(O, Map<(IK, Seq<char>), V>), PErr>
    decreases 70 - d, 0int, c.s.len(), 6int
{
    let q = skip(c.s, 0);
    if !(0 <= q < c.s.len()) { Ok((O { pairs: Seq::empty(), parent: None, tag: 0 }, inc)) }
    else { match sp_fields(c, St { p: q, g: Map::empty(), inc }, Seq::empty(), None, d, None) { Ok((o, st)) => Ok((o, st.inc)), Err(e) => Err(e) } }
}
/// The elements of an array or tuple file.
#[verifier::opaque] pub open spec fn sp_seq_doc(c: Cx, inc: Map<(IK, Seq<char>), V>, d: int, t: Option<T>) -> Result<(Seq<V>, Option<T>, Map<(IK, Seq<char>), V>), PErr>
    decreases 70 - d, 0int, c.s.len(), 6int
{
    match sp_elems(c, St { p: 0, g: Map::empty(), inc }, Seq::empty(), d, None, Seq::empty(), t) { Ok((vs, u, st)) => Ok((vs, u, st.inc)), Err(e) => Err(e) }
}
/// The canonical name of the file being read.
pub open spec fn own_name(file: Seq<char>) -> Option<Seq<char>> { match p_canon(p_of(file)) { Some(p) => p_str(p), None => None } }
/// Where an include points, relative to the file it is in.
pub open spec fn inc_path(file: Option<Seq<char>>, x: Seq<char>) -> PathV { match file { Some(f) => p_join(p_parent(p_of(f))->Some_0, p_of(x)), None => p_of(x) } }
/// Path as text and canonical path as text, if the include names a readable path.
pub open spec fn inc_names(file: Option<Seq<char>>, x: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let path = inc_path(file, x);
    if !p_is_file(path) { None } else { match (p_str(path), p_canon(path)) { (Some(a), Some(p)) => match p_str(p) { Some(f) => Some((a, f)), None => None }, _ => None } }
}
/// The kind an include token asks for.
pub open spec fn inc_kind(v: V) -> Option<IK> { match v { V::Obj(o) => if o.tag == 1 { Some(IK::Obj) } else if o.tag == 2 { Some(IK::Str) } else if o.tag == 3 { Some(IK::Arr) } else if o.tag == 4 { Some(IK::Tup) } else { None }, _ => None } }
/// The content of a file, as the kind asked for.
#[verifier::opaque] pub open spec fn sp_load(ik: IK, path: Seq<char>, cyc: Set<Seq<char>>, inc: Map<(IK, Seq<char>), V>, d: int) -> Result<(V, Map<(IK, Seq<char>), V>), PErr>
    decreases 70 - d, 1int, 0int, 0int
{
    match fs_read(path) {
        Err(m) => Err(PErr { file: None, kind: K::Io(m) }),
        Ok(s) => {
            let c = Cx { s, file: Some(path), cyc };
            match ik {
                IK::Str => Ok((V::Str(s), inc)),
                IK::Obj => match sp_doc(c, inc, d) { Ok((o, inc2)) => Ok((V::Obj(o), inc2)), Err(e) => Err(e) },
                IK::Arr => match sp_seq_doc(c, inc, d, Some(T::Any)) { Ok((vs, t, inc2)) => Ok((V::Arr(vs, t->Some_0), inc2)), Err(e) => Err(e) },
                IK::Tup => match sp_seq_doc(c, inc, d, None) { Ok((vs, _, inc2)) => Ok((V::Tup(vs, vtypes(vs)), inc2)), Err(e) => Err(e) },
            }
        },
    }
}
/// From the file name to the value: found before, or read now.
#[verifier::opaque] pub open spec fn sp_resolve(c: Cx, st: St, ik: IK, x: Seq<char>, d: int, l: int, co: int) -> Result<(V, St), PErr>
    decreases 70 - d, 2int, 0int, 0int
{
    match inc_names(c.file, x) {
        None => err(c, K::IncPath(x, l, co)),
        Some((path, full)) => {
            let own = match c.file { Some(f) => own_name(f), None => None };
            if c.file is Some && own is None { err(c, K::IncPath(x, l, co)) } else {
                let cyc = match own { Some(o) => c.cyc.insert(o), None => c.cyc };
                if cyc.contains(full) { err(c, K::Cyclic(x, l, co)) }
                else if st.inc.dom().contains((ik, full)) { Ok((st.inc[(ik, full)], st)) }
                else { match sp_load(ik, path, cyc, st.inc, d) { Err(e) => Err(e), Ok((v, inc2)) => Ok((v, St { inc: inc2.insert((ik, full), v), ..st })) } }
            }
        }
    }
}
/// The closing '>' and then the file.
#[verifier::opaque] pub open spec fn sp_inc_close(c: Cx, st: St, ik: IK, v: V, d: int, p: int) -> Result<(V, St), PErr>
    decreases 70 - d, 3int, 0int, 0int
{
    let q = skip(c.s, st.p);
    if !(st.p <= q < c.s.len()) { e_end(c, c.s.len() as int) }
    else if c.s[q] != '>' { e_close(c, Some('>'), q) }
    else { match v { V::Str(x) => sp_resolve(c, St { p: q + 1, ..st }, ik, x, d, ln(c.s, p), cl(c.s, p)), _ => err(c, K::Expected(T::Str, vtype(v), ln(c.s, p), cl(c.s, p))) } }
}
#[verifier::opaque] pub open spec fn sp_include(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int) -> Result<(V, St), PErr>
    decreases 70 - d, 4int, c.s.len() - st.p, 0int
{
    if d > 64 { e_depth(c, st.p) } else {
        let q = skip(c.s, st.p + 1);
        if !(st.p < q < c.s.len()) { e_end(c, c.s.len() as int) } else {
            match sp_full(c, St { p: q, ..st }, ps, d, Some('>')) {
                Err(e) => Err(e),
                Ok((v, st1)) => if v is Str { sp_inc_close(c, st1, IK::Obj, v, d, q) } else {
                    match inc_kind(v) {
                        None => err(c, K::IncToken(vtype(v), ln(c.s, q), cl(c.s, q))),
                        Some(ik) => {
                            let q1 = skip(c.s, st1.p);
                            if !(st.p < q1 < c.s.len()) { e_end(c, c.s.len() as int) } else {
                                match sp_full(c, St { p: q1, ..st1 }, ps, d, Some('>')) { Err(e) => Err(e), Ok((w, st2)) => sp_inc_close(c, st2, ik, w, d, q1) }
                            }
                        }
                    }
                },
            }
        }
    }
}
/// A document given as text, and one given as a file.
pub open spec fn sp_text(s: Seq<char>) -> Result<O, PErr> { match sp_doc(Cx { s, file: None, cyc: Set::empty() }, Map::empty(), 1) { Ok((o, _)) => Ok(o), Err(e) => Err(e) } }
pub open spec fn sp_file(path: Seq<char>) -> Result<O, PErr> {
    match fs_read(path) {
        Err(m) => Err(PErr { file: None, kind: K::Io(m) }),
        Ok(s) => match sp_doc(Cx { s, file: Some(path), cyc: Set::empty() }, Map::empty(), 1) { Ok((o, _)) => Ok(o), Err(e) => Err(e) },
    }
}
