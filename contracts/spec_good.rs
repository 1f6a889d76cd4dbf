// ------------------------------------------------------------------ what the parser can produce (C02, C06)
// Whatever document is read, in the result and everything stored on the way every array is homogeneous and
// carries its most specific type, every tuple carries the types of its elements, every object field has a
// valid unreserved name, no object has a field twice, and none is one of the keywords Obj, Str, Arr, Tup
// of an include (which are values of the parser only: `tag`).

pub open spec fn name_ok(n: Seq<char>) -> bool { valid_name(n) && !reserved(n) }
pub open spec fn distinct(ps: Seq<(Seq<char>, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < ps.len() ==> (#[trigger] ps[i]).0 != (#[trigger] ps[j]).0 }
pub open spec fn vgood(v: V) -> bool decreases v {
    match v {
        V::Arr(vs, t) => arr_type(vs) == Some(t) && forall|i: int| 0 <= i < vs.len() ==> vgood(#[trigger] vs[i]),
        V::Tup(vs, ts) => ts == vtypes(vs) && forall|i: int| 0 <= i < vs.len() ==> vgood(#[trigger] vs[i]),
        V::Frac(q) => q_wf(q),
        V::Obj(o) => ogood(o),
        _ => true,
    }
}
pub open spec fn ogood(o: O) -> bool decreases o {
    o.tag == 0 && (match o.parent { Some(p) => ogood(*p), None => true }) && distinct(o.pairs) && forall|i: int| 0 <= i < o.pairs.len() ==> name_ok((#[trigger] o.pairs[i]).0) && vgood(o.pairs[i].1)
}
pub open spec fn sgood(vs: Seq<V>) -> bool { forall|i: int| 0 <= i < vs.len() ==> vgood(#[trigger] vs[i]) }
pub open spec fn pgood(ps: Seq<(Seq<char>, V)>) -> bool { forall|i: int| 0 <= i < ps.len() ==> vgood((#[trigger] ps[i]).1) }
pub open spec fn fgood(ps: Seq<(Seq<char>, V)>) -> bool { pgood(ps) && distinct(ps) && forall|i: int| 0 <= i < ps.len() ==> name_ok((#[trigger] ps[i]).0) }
/// Directly inside an include a value may also be one of its keywords.
pub open spec fn kgood(v: V, b: Option<char>) -> bool { vgood(v) || (b == Some('>') && v is Obj) }
pub open spec fn tgood(vs: Seq<(V, int, int)>, b: Option<char>) -> bool { forall|i: int| 0 <= i < vs.len() ==> kgood((#[trigger] vs[i]).0, b) }
pub open spec fn ggood<X>(g: Map<X, V>) -> bool { forall|k: X| g.dom().contains(k) ==> vgood(#[trigger] g[k]) }
pub open spec fn stgood(st: St) -> bool { ggood(st.g) && ggood(st.inc) }

/// What is good is well-formed in the sense the equality theorems need.
pub proof fn th_good_wf(v: V) requires vgood(v) ensures vwf(v) decreases v {
    match v {
        V::Arr(vs, t) => { assert forall|i: int| 0 <= i < vs.len() implies vwf(#[trigger] vs[i]) by { th_good_wf(vs[i]); } }
        V::Tup(vs, ts) => { assert forall|i: int| 0 <= i < vs.len() implies vwf(#[trigger] vs[i]) by { th_good_wf(vs[i]); } }
        V::Obj(o) => th_ogood_wf(o),
        _ => { }
    }
}
pub proof fn th_ogood_wf(o: O) requires ogood(o) ensures owf(o) decreases o {
    if let Some(p) = o.parent { th_ogood_wf(*p); }
    assert forall|i: int| 0 <= i < o.pairs.len() implies vwf((#[trigger] o.pairs[i]).1) by { th_good_wf(o.pairs[i].1); }
}
/// A name that the scan accepts: every character is one the position allows.
proof fn lemma_scan_chars(s: Seq<char>, p: int, acc: Seq<char>, first: bool, k: int)
    requires k >= 0, first == (acc.len() == k), acc.len() >= k, forall|i: int| k <= i < acc.len() ==> field_char(#[trigger] acc[i], i == k)
    ensures ({ let r = field_scan(s, p, acc, first); r.2 ==> r.0.len() >= acc.len() && (p < s.len() && 0 <= p ==> r.0.len() > k) && r.0.take(acc.len() as int) == acc && forall|i: int| k <= i < r.0.len() ==> field_char(#[trigger] r.0[i], i == k) })
    decreases s.len() - p
{
    assert(acc.take(acc.len() as int) =~= acc);
    if p < 0 || p >= s.len() { }
    else if s[p] == ':' && !first { }
    else if field_char(s[p], first) {
        let a = acc.push(s[p]);
        lemma_scan_chars(s, p + 1, a, false, k);
        let r = field_scan(s, p + 1, a, false);
        if r.2 { assert(r.0.take(acc.len() as int) =~= acc) by { assert(r.0.take(a.len() as int) == a); assert forall|i: int| 0 <= i < acc.len() implies #[trigger] r.0[i] == acc[i] by { assert(r.0.take(a.len() as int)[i] == a[i]); } } }
    }
}
/// C06: the names of the fields a document can define, and of its globals.
pub proof fn th_field_names(c: Cx, p: int) requires 0 <= p < c.s.len()
    ensures sp_field(c, p) matches Ok((n, k, q)) ==> match k {
        FK::Regular => name_ok(n),
        FK::Parent => n == "^"@,
        FK::Global => n.len() > 1 && n[0] == '@' && valid_name(n.skip(1)),
    }
{
    reveal_strlit("^"); reveal_strlit("@");
    let glob = at(c.s, p) == Some('@');
    let k = if glob { 1int } else { 0int };
    let acc0 = if glob { seq!['@'] } else { Seq::<char>::empty() };
    lemma_scan_chars(c.s, p + k, acc0, true, k);
    if let Ok((n, fk, q)) = sp_field(c, p) {
        if glob { assert(n.take(1)[0] == n[0]); if n.len() == 1 { assert(n =~= "@"@); }
            let m = n.skip(1);
            assert forall|i: int| 0 <= i < m.len() implies name_char(#[trigger] m[i], i == 0) by { assert(m[i] == n[i + 1]); assert(field_char(n[i + 1], i == 0)); }
        } else if n != "^"@ {
            assert forall|i: int| 0 <= i < n.len() implies name_char(#[trigger] n[i], i == 0) by { assert(field_char(n[i], i == 0)); }
        }
    }
}
proof fn lemma_find_good(ps: Seq<(Seq<char>, V)>, f: Seq<char>, i: int) requires pgood(ps) ensures find_from(ps, f, i) matches Some(v) ==> vgood(v) decreases ps.len() - i {
    if i < 0 || i >= ps.len() { } else if ps[i].0 == f { } else { lemma_find_good(ps, f, i + 1); }
}
proof fn lemma_all_pairs_good(o: O) requires ogood(o) ensures pgood(all_pairs(o)) decreases o {
    if let Some(p) = o.parent { lemma_all_pairs_good(*p); let a = all_pairs(*p); let r = o.pairs + a;
        assert forall|i: int| 0 <= i < r.len() implies vgood((#[trigger] r[i]).1) by { if i < o.pairs.len() { assert(r[i] == o.pairs[i]); } else { assert(r[i] == a[i - o.pairs.len()]); } } }
}
/// C02: what an operator yields from good operands is good; in particular joining two arrays gives a homogeneous
/// array of the most specific type.
pub proof fn th_bin_good(c: Cx, a: V, b: V, op: BinaryOp, l: int, co: int) requires vgood(a) || a is Obj, vgood(b) || b is Obj ensures sp_bin(c, a, b, op, l, co) matches Ok(v) ==> vgood(v) {
    match (a, b) {
        (V::Arr(x, t), V::Arr(y, u)) => if op is Plus && compat(t, u) {
            let z = x + y;
            th_fold_concat(vtypes(x), vtypes(y));
            assert(vtypes(z) =~= vtypes(x) + vtypes(y));
            assert forall|i: int| 0 <= i < z.len() implies vgood(#[trigger] z[i]) by { if i < x.len() { assert(z[i] == x[i]); } else { assert(z[i] == y[i - x.len()]); } }
        },
        (V::Int(x), V::Int(y)) => if y != 0 { th_rat_wf(x, y); },
        (V::Int(x), V::Frac(y)) => { lemma_gcd_one(abs_i(x) as nat); lemma_q_ops(Q { n: x, d: 1 }, y); },
        (V::Frac(x), V::Int(y)) => { lemma_gcd_one(abs_i(y) as nat); lemma_q_ops(x, Q { n: y, d: 1 }); },
        (V::Frac(x), V::Frac(y)) => lemma_q_ops(x, y),
        _ => { }
    }
}
/// Fraction arithmetic yields fractions in lowest terms.
pub proof fn lemma_q_ops(x: Q, y: Q) requires x.d > 0, y.d > 0 ensures q_wf(q_add(x, y)), q_wf(q_sub(x, y)), q_wf(q_mul(x, y)), y.n != 0 ==> q_wf(q_div(x, y)) {
    assert(x.d * y.d > 0) by (nonlinear_arith) requires x.d > 0, y.d > 0;
    th_rat_wf(x.n * y.d + y.n * x.d, x.d * y.d); th_rat_wf(x.n * y.d - y.n * x.d, x.d * y.d); th_rat_wf(x.n * y.n, x.d * y.d);
    if y.n != 0 { assert(x.d * y.n != 0) by (nonlinear_arith) requires x.d > 0, y.n != 0; th_rat_wf(x.n * y.d, x.d * y.n); }
}
/// A numeric literal with a point denotes a fraction in lowest terms.
pub proof fn lemma_num_good(c: Cx, p: int) ensures sp_num(c, p) matches Ok((v, q)) ==> vgood(v) {
    match num_scan(c.s, p, Seq::empty(), Seq::empty(), false, false) {
        NumScan::Done(a, b, dec, q) => { lemma_ipow_pos(10, b.len()); th_rat_wf(digits_val(a + b), ipow(10, b.len())); }
        _ => { }
    }
}
proof fn lemma_fold_good(c: Cx, a: V, vals: Seq<(V, int, int)>, ops: Seq<BinaryOp>, b: Option<char>) requires kgood(a, b), tgood(vals, b) ensures sp_fold(c, a, vals, ops) matches Ok(v) ==> kgood(v, b) decreases ops.len() {
    if ops.len() == 0 || vals.len() == 0 { } else {
        th_bin_good(c, a, vals[0].0, ops[0], vals[0].1, vals[0].2);
        if let Ok(v) = sp_bin(c, a, vals[0].0, ops[0], vals[0].1, vals[0].2) {
            let w = vals.skip(1); assert forall|i: int| 0 <= i < w.len() implies kgood((#[trigger] w[i]).0, b) by { assert(w[i] == vals[i + 1]); }
            lemma_fold_good(c, v, w, ops.skip(1), b);
        }
    }
}
proof fn lemma_lookup_good(c: Cx, g: Map<Seq<char>, V>, ps: Seq<(Seq<char>, V)>, name: Seq<char>, glob: bool, l: int, co: int, b: Option<char>, ad: bool) requires ggood(g), pgood(ps) ensures sp_lookup(c, g, ps, name, glob, l, co, b, ad) matches Ok(v) ==> (if b == Some('>') && !ad { kgood(v, b) && (!vgood(v) ==> v == token(1) || v == token(2) || v == token(3) || v == token(4)) } else { vgood(v) }) {
    lemma_find_good(ps, name, 0);
}
proof fn g_full(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>) requires stgood(st), pgood(ps)
    ensures sp_full(c, st, ps, d, b) matches Ok((v, s2)) ==> kgood(v, b) && stgood(s2)
    decreases 70 - d, 0int, c.s.len() - st.p, 3int
{
    unfold_sp_full(c, st, ps, d, b); g_prim(c, st, ps, d, b);
    if let Ok((v, st1)) = sp_prim(c, st, ps, d, b) { if st.p < st1.p <= c.s.len() {
        let v0 = seq![(v, ln(c.s, st.p), cl(c.s, st.p))];
        g_chain(c, st1, ps, d, b, v0, Seq::empty());
        if let Ok((vals, ops, st2)) = sp_chain(c, st1, ps, d, b, v0, Seq::empty()) {
            let w = vals.skip(1); assert forall|i: int| 0 <= i < w.len() implies kgood((#[trigger] w[i]).0, b) by { assert(w[i] == vals[i + 1]); }
            lemma_fold_good(c, vals[0].0, w, ops, b);
        }
    } }
}
proof fn g_chain(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, vals: Seq<(V, int, int)>, ops: Seq<BinaryOp>) requires stgood(st), pgood(ps), tgood(vals, b), vals.len() > 0
    ensures sp_chain(c, st, ps, d, b, vals, ops) matches Ok((r, _, s2)) ==> tgood(r, b) && r.len() > 0 && stgood(s2)
    decreases 70 - d, 0int, c.s.len() - st.p, 2int
{
    unfold_sp_chain(c, st, ps, d, b, vals, ops);
    if let Some(ch) = at(c.s, st.p) { if let Some(op) = op_of(ch) {
        let q = st.p + 1;
        if q < c.s.len() {
            let s1 = St { p: q, ..st };
            g_prim(c, s1, ps, d, b);
            if let Ok((v2, st2)) = sp_prim(c, s1, ps, d, b) { if q < st2.p <= c.s.len() {
                if op is Mult || op is Div || op is Mod {
                    th_bin_good(c, vals.last().0, v2, op, ln(c.s, q), cl(c.s, q));
                    if let Ok(w) = sp_bin(c, vals.last().0, v2, op, ln(c.s, q), cl(c.s, q)) { g_chain(c, st2, ps, d, b, vals.drop_last().push((w, vals.last().1, vals.last().2)), ops); }
                } else { g_chain(c, st2, ps, d, b, vals.push((v2, ln(c.s, q), cl(c.s, q))), ops.push(op)); }
            } }
        }
    } }
}
proof fn g_prim(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>) requires stgood(st), pgood(ps)
    ensures sp_prim(c, st, ps, d, b) matches Ok((v, s2)) ==> kgood(v, b) && stgood(s2)
    decreases 70 - d, 0int, c.s.len() - st.p, 1int
{
    unfold_sp_prim(c, st, ps, d, b);
    if let Some(ch) = at(c.s, st.p) {
        if d > 65 { } else if ch == '"' { } else if ch == '{' { g_obj(c, st, d + 1); } else if ch == '[' { g_arr(c, st, ps, d + 1); } else if ch == '(' { g_tup(c, st, ps, d + 1); }
        else if ch == '<' { g_include(c, st, ps, d + 1); } else if ch == '+' { g_unary(c, st, ps, d, b, UnaryOp::Plus); } else if ch == '-' { g_unary(c, st, ps, d, b, UnaryOp::Minus); }
        else if is_digit_c(ch) || ch == '.' || ch == ',' { lemma_num_good(c, st.p); } else if field_char(ch, true) || ch == '@' { g_var(c, st, ps, d, b, false); }
    }
}
proof fn g_unary(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, op: UnaryOp) requires stgood(st), pgood(ps)
    ensures sp_unary(c, st, ps, d, b, op) matches Ok((v, s2)) ==> kgood(v, b) && stgood(s2)
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_unary(c, st, ps, d, b, op);
    if d <= 64 && st.p + 1 < c.s.len() { g_prim(c, St { p: st.p + 1, ..st }, ps, d + 1, b); }
}
proof fn g_var(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, ad: bool) requires stgood(st), pgood(ps)
    ensures sp_var(c, st, ps, d, b, ad) matches Ok((v, s2)) ==> (if ad { vgood(v) } else { kgood(v, b) }) && stgood(s2)
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_var(c, st, ps, d, b, ad);
    if d <= 64 {
        let glob = at(c.s, st.p) == Some('@');
        if let VarScan::Done(name, q, dot, dotg) = (if glob { var_scan(c.s, st.p + 1, seq!['@']) } else { var_scan(c.s, st.p, Seq::empty()) }) {
            lemma_lookup_good(c, st.g, ps, name, glob, ln(c.s, st.p), cl(c.s, st.p), b, ad);
            if let Ok(v) = sp_lookup(c, st.g, ps, name, glob, ln(c.s, st.p), cl(c.s, st.p), b, ad) { if dot {
                match v {
                    V::Arr(_, _) => g_prim(c, St { p: q, ..st }, ps, d + 1, b),
                    V::Tup(_, _) => g_prim(c, St { p: q, ..st }, ps, d + 1, b),
                    V::Obj(o) => if !dotg { if vgood(v) { lemma_all_pairs_good(o); } else { assert(all_pairs(o) =~= Seq::empty()); } g_var(c, St { p: q, ..st }, all_pairs(o), d + 1, b, true); },
                    _ => { }
                }
            } }
        }
    }
}
proof fn g_obj(c: Cx, st: St, d: int) requires stgood(st) ensures sp_obj(c, st, d) matches Ok((v, s2)) ==> vgood(v) && stgood(s2)
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_obj(c, st, d);
    let q = skip(c.s, st.p + 1);
    if d <= 64 && st.p < q < c.s.len() { g_fields(c, St { p: q, ..st }, Seq::empty(), None, d, Some('}')); }
}
proof fn g_fields(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, par: Option<O>, d: int, b: Option<char>) requires b != Some('>'), stgood(st), fgood(ps), par matches Some(o) ==> ogood(o)
    ensures sp_fields(c, st, ps, par, d, b) matches Ok((o, s2)) ==> ogood(o) && stgood(s2)
    decreases 70 - d, 0int, c.s.len() - st.p, 5int
{
    unfold_sp_fields(c, st, ps, par, d, b); g_pair(c, st, ps, par, d, b);
    if let Ok((more, ps2, par2, st2)) = sp_pair(c, st, ps, par, d, b) { if more && st.p < st2.p <= c.s.len() { g_fields(c, st2, ps2, par2, d, b); } }
}
proof fn g_pair(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, par: Option<O>, d: int, b: Option<char>) requires b != Some('>'), stgood(st), fgood(ps), par matches Some(o) ==> ogood(o)
    ensures sp_pair(c, st, ps, par, d, b) matches Ok((_, ps2, par2, s2)) ==> fgood(ps2) && stgood(s2) && (par2 matches Some(o) ==> ogood(o))
    decreases 70 - d, 0int, c.s.len() - st.p, 4int
{
    unfold_sp_pair(c, st, ps, par, d, b);
    if 0 <= st.p < c.s.len() {
        th_field_names(c, st.p);
        if let Ok((name, fk, p1)) = sp_field(c, st.p) {
            let q = skip(c.s, p1);
            if st.p < q < c.s.len() {
                g_full(c, St { p: q, ..st }, ps, d, b);
                if let Ok((v, st2)) = sp_full(c, St { p: q, ..st }, ps, d, b) {
                    if fk is Regular && !has_field(ps, name) {
                        let r = ps.push((name, v));
                        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 by { if j == ps.len() { assert(ps[i].0 != name); } else { assert(ps[i].0 != ps[j].0); } }
                    }
                    if fk is Global { let g2 = st2.g.insert(name, v); assert forall|k: Seq<char>| g2.dom().contains(k) implies vgood(#[trigger] g2[k]) by { if k != name { assert(st2.g.dom().contains(k)); } } }
                }
            }
        }
    }
}
proof fn g_elems(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, vs: Seq<V>, t: Option<T>) requires b != Some('>'), stgood(st), pgood(ps), sgood(vs), t matches Some(u) ==> arr_type(vs) == Some(u)
    ensures sp_elems(c, st, ps, d, b, vs, t) matches Ok((r, t2, s2)) ==> sgood(r) && stgood(s2) && (t2 is Some == t is Some) && (t2 matches Some(u) ==> arr_type(r) == Some(u))
    decreases 70 - d, 0int, c.s.len() - st.p, 5int
{
    unfold_sp_elems(c, st, ps, d, b, vs, t);
    let q = skip(c.s, st.p);
    if st.p <= q < c.s.len() && !(b is Some && c.s[q] == b->Some_0) && !(b is Some && end_delim(c.s[q])) {
        g_full(c, St { p: q, ..st }, ps, d, b);
        if let Ok((v, st2)) = sp_full(c, St { p: q, ..st }, ps, d, b) { if q < st2.p <= c.s.len() {
            let w = vs.push(v);
            match t {
                None => g_elems(c, st2, ps, d, b, w, t),
                Some(u) => if let Some(x) = msp(u, vtype(v)) {
                    lemma_fold_push(vs, v);
                    g_elems(c, st2, ps, d, b, w, Some(x));
                },
            }
        } }
    }
}
proof fn lemma_fold_push(vs: Seq<V>, v: V) ensures arr_type(vs) matches Some(u) ==> arr_type(vs.push(v)) == msp(u, vtype(v)) {
    let a = vtypes(vs); let b = vtypes(vs.push(v));
    assert(b =~= a.push(vtype(v)));
    lemma_fold_prefix(a, b, a.len());
}
proof fn lemma_fold_prefix(a: Seq<T>, b: Seq<T>, n: nat) requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures msp_fold(a, n) == msp_fold(b, n) decreases n {
    if n > 0 { lemma_fold_prefix(a, b, (n - 1) as nat); }
}
proof fn g_arr(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int) requires stgood(st), pgood(ps) ensures sp_arr(c, st, ps, d) matches Ok((v, s2)) ==> vgood(v) && stgood(s2)
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_arr(c, st, ps, d);
    if d <= 64 && st.p < c.s.len() { assert(vtypes(Seq::<V>::empty()) =~= Seq::<T>::empty()); g_elems(c, St { p: st.p + 1, ..st }, ps, d, Some(']'), Seq::empty(), Some(T::Any)); }
}
proof fn g_tup(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int) requires stgood(st), pgood(ps) ensures sp_tup(c, st, ps, d) matches Ok((v, s2)) ==> vgood(v) && stgood(s2)
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_tup(c, st, ps, d);
    if d <= 64 && st.p < c.s.len() { g_elems(c, St { p: st.p + 1, ..st }, ps, d, Some(')'), Seq::empty(), None); }
}
proof fn g_doc(c: Cx, inc: Map<(IK, Seq<char>), V>, d: int) requires ggood(inc) ensures sp_doc(c, inc, d) matches Ok((o, i2)) ==> ogood(o) && ggood(i2)
    decreases 70 - d, 0int, c.s.len(), 6int
{
    unfold_sp_doc(c, inc, d);
    let q = skip(c.s, 0);
    if 0 <= q < c.s.len() { g_fields(c, St { p: q, g: Map::empty(), inc }, Seq::empty(), None, d, None); }
}
proof fn g_seq_doc(c: Cx, inc: Map<(IK, Seq<char>), V>, d: int, t: Option<T>) requires ggood(inc), t is None || t == Some(T::Any)
    ensures sp_seq_doc(c, inc, d, t) matches Ok((vs, u, i2)) ==> sgood(vs) && ggood(i2) && (u is Some == t is Some) && (u matches Some(x) ==> arr_type(vs) == Some(x))
    decreases 70 - d, 0int, c.s.len(), 6int
{
    unfold_sp_seq_doc(c, inc, d, t);
    assert(vtypes(Seq::<V>::empty()) =~= Seq::<T>::empty());
    g_elems(c, St { p: 0, g: Map::empty(), inc }, Seq::empty(), d, None, Seq::empty(), t);
}
proof fn g_load(ik: IK, path: Seq<char>, cyc: Set<Seq<char>>, inc: Map<(IK, Seq<char>), V>, d: int) requires ggood(inc)
    ensures sp_load(ik, path, cyc, inc, d) matches Ok((v, i2)) ==> vgood(v) && ggood(i2)
    decreases 70 - d, 1int, 0int, 0int
{
    unfold_sp_load(ik, path, cyc, inc, d);
    if let Ok(s) = fs_read(path) {
        let c = Cx { s, file: Some(path), cyc };
        match ik { IK::Str => { } IK::Obj => g_doc(c, inc, d), IK::Arr => g_seq_doc(c, inc, d, Some(T::Any)), IK::Tup => g_seq_doc(c, inc, d, None) }
    }
}
proof fn g_resolve(c: Cx, st: St, ik: IK, x: Seq<char>, d: int, l: int, co: int) requires stgood(st)
    ensures sp_resolve(c, st, ik, x, d, l, co) matches Ok((v, s2)) ==> vgood(v) && stgood(s2)
    decreases 70 - d, 2int, 0int, 0int
{
    unfold_sp_resolve(c, st, ik, x, d, l, co);
    if let Some((path, full)) = inc_names(c.file, x) {
        let own = match c.file { Some(f) => own_name(f), None => None };
        let cyc = match own { Some(o) => c.cyc.insert(o), None => c.cyc };
        g_load(ik, path, cyc, st.inc, d);
        if let Ok((v, inc2)) = sp_load(ik, path, cyc, st.inc, d) {
            let i3 = inc2.insert((ik, full), v);
            assert forall|k: (IK, Seq<char>)| i3.dom().contains(k) implies vgood(#[trigger] i3[k]) by { if k != (ik, full) { assert(inc2.dom().contains(k)); } }
        }
    }
}
proof fn g_inc_close(c: Cx, st: St, ik: IK, v: V, d: int, p: int) requires stgood(st)
    ensures sp_inc_close(c, st, ik, v, d, p) matches Ok((w, s2)) ==> vgood(w) && stgood(s2)
    decreases 70 - d, 3int, 0int, 0int
{
    unfold_sp_inc_close(c, st, ik, v, d, p);
    let q = skip(c.s, st.p);
    if let V::Str(x) = v { g_resolve(c, St { p: q + 1, ..st }, ik, x, d, ln(c.s, p), cl(c.s, p)); }
}
proof fn g_include(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int) requires stgood(st), pgood(ps)
    ensures sp_include(c, st, ps, d) matches Ok((v, s2)) ==> vgood(v) && stgood(s2)
    decreases 70 - d, 4int, c.s.len() - st.p, 0int
{
    unfold_sp_include(c, st, ps, d);
    let q = skip(c.s, st.p + 1);
    if d <= 64 && st.p < q < c.s.len() {
        g_full(c, St { p: q, ..st }, ps, d, Some('>'));
        if let Ok((v, st1)) = sp_full(c, St { p: q, ..st }, ps, d, Some('>')) {
            if v is Str { g_inc_close(c, st1, IK::Obj, v, d, q); assert(sp_include(c, st, ps, d) == sp_inc_close(c, st1, IK::Obj, v, d, q)); }
            else if let Some(ik) = inc_kind(v) {
                let q1 = skip(c.s, st1.p);
                if st.p < q1 < c.s.len() {
                    g_full(c, St { p: q1, ..st1 }, ps, d, Some('>'));
                    if let Ok((w, st2)) = sp_full(c, St { p: q1, ..st1 }, ps, d, Some('>')) { g_inc_close(c, st2, ik, w, d, q1); assert(sp_include(c, st, ps, d) == sp_inc_close(c, st2, ik, w, d, q1)); }
                }
            }
        }
    }
}
/// C02, C06: what a document given as text denotes.
pub proof fn th_text_good(s: Seq<char>) ensures sp_text(s) matches Ok(o) ==> ogood(o) { g_doc(Cx { s, file: None, cyc: Set::empty() }, Map::empty(), 1); }
/// C02, C06: what a file denotes.
pub proof fn th_file_good(path: Seq<char>) ensures sp_file(path) matches Ok(o) ==> ogood(o) {
    if let Ok(s) = fs_read(path) { g_doc(Cx { s, file: Some(path), cyc: Set::empty() }, Map::empty(), 1); }
}
