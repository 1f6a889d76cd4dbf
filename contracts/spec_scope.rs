// ------------------------------------------------------------------ names, globals, included files (C10, C11, C16, C18)
/// C11: a name after a dot denotes what `get` finds: the object's own field, or else its ancestors' nearest.
pub proof fn th_dot_get(o: O, f: Seq<char>) ensures sp_find(all_pairs(o), f) == sp_get(o, f) decreases o {
    match o.parent { Some(p) => { th_dot_get(*p, f); lemma_find_cat(o.pairs, all_pairs(*p), f, 0); } None => { } }
}
/// C11: after a dot every name, reserved or not, is looked up in the object: the value is what `get` finds, else an error names it.
pub proof fn th_dot_lookup(c: Cx, g: Map<Seq<char>, V>, o: O, name: Seq<char>, l: int, co: int, b: Option<char>) requires name != "@"@
    ensures sp_lookup(c, g, all_pairs(o), name, false, l, co, b, true) == (match sp_get(o, name) { Some(v) => Ok::<V, PErr>(v), None => err::<V>(c, K::NoVar(name, l, co)) }) { th_dot_get(o, name); }
/// C10: outside an include a plain name is a constant, a field of the scope, or an error naming it.
pub proof fn th_plain_lookup(c: Cx, g: Map<Seq<char>, V>, ps: Seq<(Seq<char>, V)>, name: Seq<char>, l: int, co: int, b: Option<char>) requires b != Some('>'), name != "@"@
    ensures sp_lookup(c, g, ps, name, false, l, co, b, false) == (if name == "null"@ { Ok::<V, PErr>(V::Null) } else if name == "true"@ { Ok::<V, PErr>(V::Bool(true)) } else if name == "false"@ { Ok::<V, PErr>(V::Bool(false)) }
        else { match sp_find(ps, name) { Some(v) => Ok::<V, PErr>(v), None => err::<V>(c, K::NoVar(name, l, co)) } }) { }
proof fn lemma_find_cat(a: Seq<(Seq<char>, V)>, b: Seq<(Seq<char>, V)>, f: Seq<char>, i: int) requires 0 <= i <= a.len()
    ensures find_from(a + b, f, i) == (match find_from(a, f, i) { Some(v) => Some(v), None => sp_find(b, f) }) decreases a.len() - i
{
    if i < a.len() { assert((a + b)[i] == a[i]); lemma_find_cat(a, b, f, i + 1); } else { lemma_find_shift(a, b, f, 0); }
}
proof fn lemma_find_shift(a: Seq<(Seq<char>, V)>, b: Seq<(Seq<char>, V)>, f: Seq<char>, i: int) requires 0 <= i <= b.len()
    ensures find_from(a + b, f, a.len() + i) == find_from(b, f, i) decreases b.len() - i
{
    if i < b.len() { assert((a + b)[a.len() + i] == b[i]); lemma_find_shift(a, b, f, i + 1); }
}
/// What is defined or included once stays what it is.
pub open spec fn grows(a: St, b: St) -> bool { ggrows(a.g, b.g) && igrows(a.inc, b.inc) }
pub open spec fn ggrows(a: Map<Seq<char>, V>, b: Map<Seq<char>, V>) -> bool { forall|k: Seq<char>| #[trigger] a.dom().contains(k) ==> b.dom().contains(k) && b[k] == a[k] }
pub open spec fn igrows(a: Map<(IK, Seq<char>), V>, b: Map<(IK, Seq<char>), V>) -> bool { forall|k: (IK, Seq<char>)| #[trigger] a.dom().contains(k) ==> b.dom().contains(k) && b[k] == a[k] }
/// The character just read.
pub open spec fn just(s: Seq<char>, p: int, ch: char) -> bool { 0 < p <= s.len() && s[p - 1] == ch }
proof fn m_full(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>) ensures sp_full(c, st, ps, d, b) matches Ok((v, s2)) ==> grows(st, s2) && sp_value_end(c, s2.p, b) is Ok
    decreases 70 - d, 0int, c.s.len() - st.p, 3int
{
    unfold_sp_full(c, st, ps, d, b); m_prim(c, st, ps, d, b);
    if let Ok((v, st1)) = sp_prim(c, st, ps, d, b) { if st.p < st1.p <= c.s.len() { m_chain(c, st1, ps, d, b, seq![(v, ln(c.s, st.p), cl(c.s, st.p))], Seq::empty()); } }
}
proof fn m_chain(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, vals: Seq<(V, int, int)>, ops: Seq<BinaryOp>) ensures sp_chain(c, st, ps, d, b, vals, ops) matches Ok((_, _, s2)) ==> grows(st, s2)
    decreases 70 - d, 0int, c.s.len() - st.p, 2int
{
    unfold_sp_chain(c, st, ps, d, b, vals, ops);
    if let Some(ch) = at(c.s, st.p) { if let Some(op) = op_of(ch) {
        let q = st.p + 1;
        if q < c.s.len() {
            let s1 = St { p: q, ..st };
            m_prim(c, s1, ps, d, b);
            if let Ok((v2, st2)) = sp_prim(c, s1, ps, d, b) { if q < st2.p <= c.s.len() {
                if op is Mult || op is Div || op is Mod {
                    if let Ok(w) = sp_bin(c, vals.last().0, v2, op, ln(c.s, q), cl(c.s, q)) { m_chain(c, st2, ps, d, b, vals.drop_last().push((w, vals.last().1, vals.last().2)), ops); }
                } else { m_chain(c, st2, ps, d, b, vals.push((v2, ln(c.s, q), cl(c.s, q))), ops.push(op)); }
            } }
        }
    } }
}
proof fn m_prim(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>) ensures sp_prim(c, st, ps, d, b) matches Ok((v, s2)) ==> grows(st, s2)
    decreases 70 - d, 0int, c.s.len() - st.p, 1int
{
    unfold_sp_prim(c, st, ps, d, b);
    if let Some(ch) = at(c.s, st.p) {
        if d > 65 { } else if ch == '"' { } else if ch == '{' { th_obj_end(c, st, d + 1); } else if ch == '[' { th_arr_end(c, st, ps, d + 1); } else if ch == '(' { th_tup_end(c, st, ps, d + 1); }
        else if ch == '<' { th_include_end(c, st, ps, d + 1); } else if ch == '+' { m_unary(c, st, ps, d, b, UnaryOp::Plus); } else if ch == '-' { m_unary(c, st, ps, d, b, UnaryOp::Minus); }
        else if is_digit_c(ch) || ch == '.' || ch == ',' { } else if field_char(ch, true) || ch == '@' { m_var(c, st, ps, d, b, false); }
    }
}
proof fn m_unary(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, op: UnaryOp) ensures sp_unary(c, st, ps, d, b, op) matches Ok((v, s2)) ==> grows(st, s2)
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_unary(c, st, ps, d, b, op);
    if d <= 64 && st.p + 1 < c.s.len() { let s1 = St { p: st.p + 1, ..st }; m_prim(c, s1, ps, d + 1, b); if let Ok((v, s2)) = sp_prim(c, s1, ps, d + 1, b) { assert(grows(s1, s2)); assert(s1.g == st.g); assert(igrows(st.inc, s2.inc)); assert(grows(st, s2)); } }
}
proof fn m_var(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, ad: bool) ensures sp_var(c, st, ps, d, b, ad) matches Ok((v, s2)) ==> grows(st, s2)
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_var(c, st, ps, d, b, ad);
    if d <= 64 {
        let glob = at(c.s, st.p) == Some('@');
        if let VarScan::Done(name, q, dot, dotg) = (if glob { var_scan(c.s, st.p + 1, seq!['@']) } else { var_scan(c.s, st.p, Seq::empty()) }) {
            if let Ok(v) = sp_lookup(c, st.g, ps, name, glob, ln(c.s, st.p), cl(c.s, st.p), b, ad) { if dot {
                match v {
                    V::Arr(_, _) => m_prim(c, St { p: q, ..st }, ps, d + 1, b),
                    V::Tup(_, _) => m_prim(c, St { p: q, ..st }, ps, d + 1, b),
                    V::Obj(o) => if !dotg { m_var(c, St { p: q, ..st }, all_pairs(o), d + 1, b, true); },
                    _ => { }
                }
            } }
        }
    }
}
/// C18: an object ends just after its own closing brace.
pub proof fn th_obj_end(c: Cx, st: St, d: int) ensures sp_obj(c, st, d) matches Ok((v, s2)) ==> just(c.s, s2.p, '}') && grows(st, s2)
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_obj(c, st, d);
    let q = skip(c.s, st.p + 1);
    if d <= 64 && st.p < q < c.s.len() { m_fields(c, St { p: q, ..st }, Seq::empty(), None, d, Some('}')); }
}
proof fn m_fields(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, par: Option<O>, d: int, b: Option<char>) ensures sp_fields(c, st, ps, par, d, b) matches Ok((o, s2)) ==> grows(st, s2) && (b is Some ==> just(c.s, s2.p, '}'))
    decreases 70 - d, 0int, c.s.len() - st.p, 5int
{
    unfold_sp_fields(c, st, ps, par, d, b); m_pair(c, st, ps, par, d, b);
    if let Ok((more, ps2, par2, st2)) = sp_pair(c, st, ps, par, d, b) { if more && st.p < st2.p <= c.s.len() { m_fields(c, st2, ps2, par2, d, b); } }
}
proof fn m_pair(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, par: Option<O>, d: int, b: Option<char>) ensures sp_pair(c, st, ps, par, d, b) matches Ok((more, _, _, s2)) ==> grows(st, s2) && (!more && b is Some ==> just(c.s, s2.p, '}'))
    decreases 70 - d, 0int, c.s.len() - st.p, 4int
{
    unfold_sp_pair(c, st, ps, par, d, b);
    if 0 <= st.p < c.s.len() { if let Ok((name, fk, p1)) = sp_field(c, st.p) {
        let q = skip(c.s, p1);
        if st.p < q < c.s.len() {
            m_full(c, St { p: q, ..st }, ps, d, b);
        }
    } }
}
proof fn m_elems(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, vs: Seq<V>, t: Option<T>) ensures sp_elems(c, st, ps, d, b, vs, t) matches Ok((_, _, s2)) ==> grows(st, s2) && (b matches Some(x) ==> just(c.s, s2.p, x))
    decreases 70 - d, 0int, c.s.len() - st.p, 5int
{
    unfold_sp_elems(c, st, ps, d, b, vs, t);
    let q = skip(c.s, st.p);
    if st.p <= q < c.s.len() && !(b is Some && c.s[q] == b->Some_0) && !(b is Some && end_delim(c.s[q])) {
        m_full(c, St { p: q, ..st }, ps, d, b);
        if let Ok((v, st2)) = sp_full(c, St { p: q, ..st }, ps, d, b) { if q < st2.p <= c.s.len() {
            match t { None => m_elems(c, st2, ps, d, b, vs.push(v), t), Some(u) => if let Some(x) = msp(u, vtype(v)) { m_elems(c, st2, ps, d, b, vs.push(v), Some(x)); } }
        } }
    }
    lemma_skip_low(c.s, st.p);
    if let Ok((_, _, s2)) = sp_elems(c, st, ps, d, b, vs, t) { assert(igrows(st.inc, s2.inc)); assert(grows(st, s2)); assert(b matches Some(x) ==> just(c.s, s2.p, x)); }
}
proof fn lemma_skip_low(s: Seq<char>, p: int) ensures 0 <= skip(s, p) <= s.len() { if 0 <= p < s.len() { lemma_skip_at(s, p); } }
/// C18: an array ends just after its own closing bracket.
pub proof fn th_arr_end(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int) ensures sp_arr(c, st, ps, d) matches Ok((v, s2)) ==> just(c.s, s2.p, ']') && grows(st, s2)
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_arr(c, st, ps, d);
    if d <= 64 && st.p < c.s.len() { m_elems(c, St { p: st.p + 1, ..st }, ps, d, Some(']'), Seq::empty(), Some(T::Any)); }
}
/// C18: a tuple ends just after its own closing parenthesis.
pub proof fn th_tup_end(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int) ensures sp_tup(c, st, ps, d) matches Ok((v, s2)) ==> just(c.s, s2.p, ')') && grows(st, s2)
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_tup(c, st, ps, d);
    if d <= 64 && st.p < c.s.len() { m_elems(c, St { p: st.p + 1, ..st }, ps, d, Some(')'), Seq::empty(), None); }
}
proof fn m_doc(c: Cx, inc: Map<(IK, Seq<char>), V>, d: int) ensures sp_doc(c, inc, d) matches Ok((o, i2)) ==> igrows(inc, i2)
    decreases 70 - d, 0int, c.s.len(), 6int
{
    unfold_sp_doc(c, inc, d);
    let q = skip(c.s, 0);
    if 0 <= q < c.s.len() { m_fields(c, St { p: q, g: Map::empty(), inc }, Seq::empty(), None, d, None); }
}
proof fn m_seq_doc(c: Cx, inc: Map<(IK, Seq<char>), V>, d: int, t: Option<T>) ensures sp_seq_doc(c, inc, d, t) matches Ok((vs, u, i2)) ==> igrows(inc, i2)
    decreases 70 - d, 0int, c.s.len(), 6int
{
    unfold_sp_seq_doc(c, inc, d, t);
    m_elems(c, St { p: 0, g: Map::empty(), inc }, Seq::empty(), d, None, Seq::empty(), t);
}
proof fn m_load(ik: IK, path: Seq<char>, cyc: Set<Seq<char>>, inc: Map<(IK, Seq<char>), V>, d: int) ensures sp_load(ik, path, cyc, inc, d) matches Ok((v, i2)) ==> igrows(inc, i2)
    decreases 70 - d, 1int, 0int, 0int
{
    unfold_sp_load(ik, path, cyc, inc, d);
    if let Ok(s) = fs_read(path) {
        let c = Cx { s, file: Some(path), cyc };
        match ik { IK::Str => { } IK::Obj => m_doc(c, inc, d), IK::Arr => m_seq_doc(c, inc, d, Some(T::Any)), IK::Tup => m_seq_doc(c, inc, d, None) }
    }
}
/// C16: an include names a file that is not being read; what it yields is, for the rest of the document, what including that
/// file as that kind yields; and it brings no globals along.
pub proof fn th_resolve(c: Cx, st: St, ik: IK, x: Seq<char>, d: int, l: int, co: int)
    ensures sp_resolve(c, st, ik, x, d, l, co) matches Ok((v, s2)) ==> s2.g == st.g && s2.p == st.p && igrows(st.inc, s2.inc)
        && (inc_names(c.file, x) matches Some((_, full)) && !c.cyc.contains(full) && s2.inc.dom().contains((ik, full)) && s2.inc[(ik, full)] == v)
    decreases 70 - d, 2int, 0int, 0int
{
    unfold_sp_resolve(c, st, ik, x, d, l, co);
    if let Some((path, full)) = inc_names(c.file, x) {
        let own = match c.file { Some(f) => own_name(f), None => None };
        let cyc = match own { Some(o) => c.cyc.insert(o), None => c.cyc };
        m_load(ik, path, cyc, st.inc, d);
    }
}
/// C16: including a file again as the same kind yields what it yielded before, whatever was read in between.
pub proof fn th_include_again(c: Cx, st: St, ik: IK, x: Seq<char>, d: int, l: int, co: int, c2: Cx, st2: St, y: Seq<char>, d2: int, l2: int, co2: int)
    requires sp_resolve(c, st, ik, x, d, l, co) is Ok, sp_resolve(c2, st2, ik, y, d2, l2, co2) is Ok,
        igrows(sp_resolve(c, st, ik, x, d, l, co)->Ok_0.1.inc, st2.inc), inc_names(c2.file, y)->Some_0.1 == inc_names(c.file, x)->Some_0.1
    ensures sp_resolve(c2, st2, ik, y, d2, l2, co2) == Ok::<(V, St), PErr>((sp_resolve(c, st, ik, x, d, l, co)->Ok_0.0, st2))
{
    th_resolve(c, st, ik, x, d, l, co); th_resolve(c2, st2, ik, y, d2, l2, co2);
    unfold_sp_resolve(c2, st2, ik, y, d2, l2, co2);
}
proof fn m_inc_close(c: Cx, st: St, ik: IK, v: V, d: int, p: int) ensures sp_inc_close(c, st, ik, v, d, p) matches Ok((w, s2)) ==> just(c.s, s2.p, '>') && grows(st, s2)
    decreases 70 - d, 3int, 0int, 0int
{
    unfold_sp_inc_close(c, st, ik, v, d, p);
    let q = skip(c.s, st.p);
    lemma_skip_low(c.s, st.p);
    if let V::Str(x) = v { th_resolve(c, St { p: q + 1, ..st }, ik, x, d, ln(c.s, p), cl(c.s, p)); }
}
/// C18: an include ends just after its own closing angle bracket.
pub proof fn th_include_end(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int) ensures sp_include(c, st, ps, d) matches Ok((v, s2)) ==> just(c.s, s2.p, '>') && grows(st, s2)
    decreases 70 - d, 4int, c.s.len() - st.p, 0int
{
    unfold_sp_include(c, st, ps, d);
    let q = skip(c.s, st.p + 1);
    if d <= 64 && st.p < q < c.s.len() {
        m_full(c, St { p: q, ..st }, ps, d, Some('>'));
        if let Ok((v, st1)) = sp_full(c, St { p: q, ..st }, ps, d, Some('>')) {
            unfold_sp_full(c, St { p: q, ..st }, ps, d, Some('>'));
            if v is Str { m_inc_close(c, st1, IK::Obj, v, d, q); }
            else if let Some(ik) = inc_kind(v) {
                let q1 = skip(c.s, st1.p);
                if st.p < q1 < c.s.len() {
                    m_full(c, St { p: q1, ..st1 }, ps, d, Some('>'));
                    if let Ok((w, st2)) = sp_full(c, St { p: q1, ..st1 }, ps, d, Some('>')) { m_inc_close(c, st2, ik, w, d, q1); }
                }
            }
        }
    }
}
/// C10: a global keeps its value from its definition to the end of the document, inside objects as well, and is not defined twice.
pub proof fn th_global_fixed(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, par: Option<O>, d: int, b: Option<char>, name: Seq<char>) requires st.g.dom().contains(name)
    ensures sp_fields(c, st, ps, par, d, b) matches Ok((_, s2)) ==> s2.g.dom().contains(name) && s2.g[name] == st.g[name]
{ m_fields(c, st, ps, par, d, b); }
