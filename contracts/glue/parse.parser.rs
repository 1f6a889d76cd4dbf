impl View for IncludeType { type V = IK; open spec fn view(&self) -> IK { match *self { IncludeType::Obj => IK::Obj, IncludeType::Str => IK::Str, IncludeType::Arr => IK::Arr, IncludeType::Tup => IK::Tup } } }
pub open spec fn fk(f: FieldType) -> FK { match f { FieldType::Global => FK::Global, FieldType::Parent => FK::Parent, FieldType::Regular => FK::Regular } }
/// The contents of the globals and of the include cache, of a slice of pairs, of the pending operands.
pub open spec fn gv<A>(m: Map<A, Value>) -> Map<A, V> { m.map_values(|v: Value| vw(v)) }
pub open spec fn dv(q: Seq<(Value, usize, usize)>) -> Seq<(V, int, int)> { Seq::new(q.len(), |i: int| (vw(q[i].0), q[i].1 as int, q[i].2 as int)) }
pub open spec fn par(p: Option<Obj>) -> Option<O> { match p { Some(o) => Some(ow(o)), None => None } }
pub open spec fn cx(s: CharStream, inc: IncludedMap) -> Cx { Cx { s: s.text(), file: s.fname(), cyc: inc.1@ } }
/// The same, for what does not depend on the files being read.
pub open spec fn tcx(s: CharStream) -> Cx { Cx { s: s.text(), file: s.fname(), cyc: Set::empty() } }
pub open spec fn stt(s: CharStream, g: GlobalMap, inc: IncludedMap) -> St { St { p: s.pos(), g: gv(g@), inc: gv(inc.0@) } }
/// The stream is consistent, its file (if any) is what it reads, and that file is not yet marked as being read.
pub open spec fn ready(s: CharStream, inc: IncludedMap) -> bool {
    &&& s.wf()
    &&& (s.fname() matches Some(f) ==> fs_read(f) == Ok::<Seq<char>, Seq<char>>(s.text()) && (own_name(f) matches Some(o) ==> !inc.1@.contains(o)))
}
pub open spec fn keeps(a: Map<(IK, Seq<char>), Value>, b: Map<(IK, Seq<char>), Value>) -> bool { forall|k: (IK, Seq<char>)| #[trigger] a.dom().contains(k) ==> b.dom().contains(k) && b[k] == a[k] }
/// What every successful parsing step guarantees besides its value.
pub open spec fn step(s0: CharStream, i0: IncludedMap, s1: CharStream, i1: IncludedMap) -> bool {
    s1.wf() && s1.src(&s0) && s1.pos() > s0.pos() && i1.1@ == i0.1@ && keeps(i0.0@, i1.0@)
}
pub proof fn lemma_psfind_at(ps: Seq<Pair>, f: Seq<char>, i: int, k: int)
    requires 0 <= i <= k < ps.len(), ps[k].0@ == f, forall|j: int| i <= j < k ==> (#[trigger] ps[j]).0@ != f
    ensures find_from(psv(ps), f, i) == Some(vw(ps[k].1)) decreases k - i { if i < k { lemma_psfind_at(ps, f, i + 1, k); } }
pub proof fn lemma_psfind_none(ps: Seq<Pair>, f: Seq<char>, i: int)
    requires 0 <= i, forall|j: int| i <= j < ps.len() ==> (#[trigger] ps[j]).0@ != f
    ensures find_from(psv(ps), f, i) is None decreases ps.len() - i { if i < ps.len() { lemma_psfind_none(ps, f, i + 1); } }
pub proof fn lemma_gv0() ensures gv(Map::<Seq<char>, Value>::empty()) == Map::<Seq<char>, V>::empty(), gv(Map::<(IK, Seq<char>), Value>::empty()) == Map::<(IK, Seq<char>), V>::empty() {
    assert(gv(Map::<Seq<char>, Value>::empty()) =~= Map::<Seq<char>, V>::empty()); assert(gv(Map::<(IK, Seq<char>), Value>::empty()) =~= Map::<(IK, Seq<char>), V>::empty());
}
pub proof fn lemma_sentinels() ensures forall|a: usize, b: usize| #![trigger sentinel_tag(a), sentinel_tag(b)] sentinel_tag(a) == sentinel_tag(b) && sentinel_tag(a) != 0 ==> a == b {
    assert forall|a: usize, b: usize| #![trigger sentinel_tag(a), sentinel_tag(b)] sentinel_tag(a) == sentinel_tag(b) && sentinel_tag(a) != 0 implies a == b by { axiom_sentinel(a, b); }
}
pub proof fn lemma_tags() ensures forall|o: Obj| (#[trigger] ow(o)).tag == sentinel_tag(o.inner.id) { }
/// What a name (after a dot, also an index) may start with.
pub open spec fn var_start(c: char) -> bool { field_char(c, true) || c == '@' || is_digit_c(c) || c == '.' || c == ',' }
pub proof fn lemma_tokens() ensures forall|o: Obj| o.inner.pairs@.len() == 0 && o.inner.parent is None ==> #[trigger] vw(Value::Obj(o)) == token(sentinel_tag(o.inner.id)) {
    assert forall|o: Obj| o.inner.pairs@.len() == 0 && o.inner.parent is None implies #[trigger] vw(Value::Obj(o)) == token(sentinel_tag(o.inner.id)) by {
        reveal_with_fuel(crate::value::ow, 2); lemma_psv(&o.inner.pairs); assert(pws(o.inner.pairs) =~= Seq::empty());
    }
}
pub proof fn lemma_all_pairs(o: &Obj) ensures o.inner.parent is None ==> all_pairs(ow(*o)) == pws(o.inner.pairs) { }
/// The pending operands, as they are added and taken away.
pub proof fn lemma_dv(q: Seq<(Value, usize, usize)>)
    ensures forall|x: (Value, usize, usize)| #[trigger] dv(q.push(x)) == dv(q).push((vw(x.0), x.1 as int, x.2 as int)),
        q.len() > 0 ==> dv(q.drop_last()) == dv(q).drop_last() && dv(q.skip(1)) == dv(q).skip(1) && dv(q).last() == (vw(q.last().0), q.last().1 as int, q.last().2 as int) && dv(q)[0] == (vw(q[0].0), q[0].1 as int, q[0].2 as int),
        q.len() > 0 ==> forall|x: (Value, usize, usize)| #[trigger] dv(q.drop_last().push(x)) == dv(q).drop_last().push((vw(x.0), x.1 as int, x.2 as int)) {
    assert forall|x: (Value, usize, usize)| #[trigger] dv(q.push(x)) == dv(q).push((vw(x.0), x.1 as int, x.2 as int)) by { assert(dv(q.push(x)) =~= dv(q).push((vw(x.0), x.1 as int, x.2 as int))); }
    if q.len() > 0 {
        assert(dv(q.drop_last()) =~= dv(q).drop_last()); assert(dv(q.skip(1)) =~= dv(q).skip(1));
        assert forall|x: (Value, usize, usize)| #[trigger] dv(q.drop_last().push(x)) == dv(q).drop_last().push((vw(x.0), x.1 as int, x.2 as int)) by { assert(dv(q.drop_last().push(x)) =~= dv(q).drop_last().push((vw(x.0), x.1 as int, x.2 as int))); }
    }
}
// ---- which instance a reading hands out (C17): the values of the crate themselves, ids included
pub use crate::obj::{rfind, lemma_rfind_at, lemma_rfind_none};
/// The fields of an object and of its ancestors, as stored.
pub open spec fn raw_all(o: Obj) -> Seq<Pair> decreases o { match o.inner.parent { Some(p) => o.inner.pairs@ + raw_all(p), None => o.inner.pairs@ } }
pub open spec fn name_at(s: Seq<char>, p: int) -> VarScan { if at(s, p) == Some('@') { var_scan(s, p + 1, seq!['@']) } else { var_scan(s, p, Seq::empty()) } }
/// The stored value a name denotes.
pub open spec fn raw_lookup(ps: Seq<Pair>, g: Map<Seq<char>, Value>, name: Seq<char>, glob: bool) -> Option<Value> { if glob { if g.dom().contains(name) { Some(g[name]) } else { None } } else { rfind(ps, name, 0) } }
/// v is the very value stored under the name at this place (or in the container stored there, at the index or name after the dot).
pub open spec fn var_inst(c: Cx, st: St, ps: Seq<Pair>, g: Map<Seq<char>, Value>, d: int, b: Option<char>, v: Value) -> bool decreases c.s.len() - st.p {
    match name_at(c.s, st.p) {
        VarScan::Done(name, q, dot, dotg) => if reserved(name) { true } else { match raw_lookup(ps, g, name, at(c.s, st.p) == Some('@')) {
            None => false,
            Some(w) => if !dot { v == w } else if !(st.p < q <= c.s.len()) { false } else { match w {
                Value::Arr(a) => sp_prim(c, St { p: q, ..st }, psv(ps), d + 1, b) matches Ok((V::Int(k), _)) && 0 <= k < a.inner.values@.len() && v == a.inner.values@[k],
                Value::Tup(a) => sp_prim(c, St { p: q, ..st }, psv(ps), d + 1, b) matches Ok((V::Int(k), _)) && 0 <= k < a.inner.values@.len() && v == a.inner.values@[k],
                Value::Obj(o) => var_inst(c, St { p: q, ..st }, raw_all(o), g, d + 1, b, v),
                _ => false,
            } },
        } },
        _ => false,
    }
}
/// The key an include is remembered under: the kind asked for and the canonical name of the file.
pub open spec fn inc_key(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int) -> Option<(IK, Seq<char>)> {
    let q = skip(c.s, st.p + 1);
    match sp_full(c, St { p: q, ..st }, ps, d, Some('>')) {
        Ok((V::Str(x), _)) => match inc_names(c.file, x) { Some((_, f)) => Some((IK::Obj, f)), None => None },
        Ok((v, st1)) => match (inc_kind(v), sp_full(c, St { p: skip(c.s, st1.p), ..st1 }, ps, d, Some('>'))) {
            (Some(ik), Ok((V::Str(x), _))) => match inc_names(c.file, x) { Some((_, f)) => Some((ik, f)), None => None },
            _ => None,
        },
        Err(_) => None,
    }
}
/// v is the very value remembered for this include.
pub open spec fn inc_inst(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, m: Map<(IK, Seq<char>), Value>, v: Value) -> bool {
    match inc_key(c, st, ps, d) { Some(k) => m.dom().contains(k) && m[k] == v, None => false }
}
/// A value without operators that is read by name or by include is the very value stored there; `end` is where reading it stopped.
pub open spec fn val_inst(c: Cx, st: St, ps: Seq<Pair>, g: Map<Seq<char>, Value>, m: Map<(IK, Seq<char>), Value>, d: int, b: Option<char>, v: Value, end: int) -> bool {
    sp_prim(c, st, psv(ps), d, b) matches Ok((_, s2)) && s2.p == end ==> {
        &&& (at(c.s, st.p) matches Some(ch) && (field_char(ch, true) || ch == '@') ==> var_inst(c, st, ps, g, d, b, v))
        &&& (at(c.s, st.p) == Some('<') ==> inc_inst(c, st, psv(ps), d + 1, m, v))
    }
}
/// What reading a pair stores: the very value read, under the name written; nothing else changes.
pub open spec fn pair_inst(c: Cx, st: St, ps0: Seq<Pair>, g0: Map<Seq<char>, Value>, par0: Option<Obj>, d: int, b: Option<char>, ps1: Seq<Pair>, g1: Map<Seq<char>, Value>, par1: Option<Obj>, m: Map<(IK, Seq<char>), Value>) -> bool {
    if at(c.s, st.p) == Some('}') && b is Some { ps1 == ps0 && g1 == g0 && par1 == par0 } else { match sp_field(c, st.p) {
        Err(_) => false,
        Ok((name, f, p1)) => {
            let s1 = St { p: skip(c.s, p1), ..st };
            let e = sp_full(c, s1, psv(ps0), d, b)->Ok_0.1.p;
            match f {
                FK::Regular => ps1.len() == ps0.len() + 1 && ps1.drop_last() == ps0 && ps1.last().0@ == name && par1 == par0 && val_inst(c, s1, ps0, g0, m, d, b, ps1.last().1, e),
                FK::Global => ps1 == ps0 && par1 == par0 && g1.dom().contains(name) && val_inst(c, s1, ps0, g0, m, d, b, g1[name], e),
                FK::Parent => ps1 == ps0 && (par1 matches Some(o) && val_inst(c, s1, ps0, g0, m, d, b, Value::Obj(o), e)),
            }
        },
    } }
}
/// No global is lost or gets another value.
pub open spec fn keepsg(a: Map<Seq<char>, Value>, b: Map<Seq<char>, Value>) -> bool { forall|k: Seq<char>| #[trigger] a.dom().contains(k) ==> b.dom().contains(k) && b[k] == a[k] }
/// Where the k-th element of an array or tuple starts (before blanks and comments).
pub open spec fn el_st(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, k: int) -> St decreases k {
    if k <= 0 { st } else { let s = el_st(c, st, ps, d, b, k - 1); sp_full(c, St { p: skip(c.s, s.p), ..s }, ps, d, b)->Ok_0.1 }
}
pub open spec fn el_one(c: Cx, st: St, ps: Seq<Pair>, g: Map<Seq<char>, Value>, m: Map<(IK, Seq<char>), Value>, d: int, b: Option<char>, k: int, v: Value) -> bool {
    let s = el_st(c, st, psv(ps), d, b, k);
    val_inst(c, St { p: skip(c.s, s.p), ..s }, ps, g, m, d, b, v, el_st(c, st, psv(ps), d, b, k + 1).p)
}
/// Every element that is read by name or by include is the very value stored there.
pub open spec fn el_inst(c: Cx, st: St, ps: Seq<Pair>, g: Map<Seq<char>, Value>, m: Map<(IK, Seq<char>), Value>, d: int, b: Option<char>, vs: Seq<Value>) -> bool {
    forall|k: int| 0 <= k < vs.len() ==> el_one(c, st, ps, g, m, d, b, k, #[trigger] vs[k])
}
pub proof fn lemma_var_inst_mono(c: Cx, st: St, ps: Seq<Pair>, g: Map<Seq<char>, Value>, g2: Map<Seq<char>, Value>, d: int, b: Option<char>, v: Value)
    requires keepsg(g, g2), var_inst(c, st, ps, g, d, b, v) ensures var_inst(c, st, ps, g2, d, b, v) decreases c.s.len() - st.p
{
    match name_at(c.s, st.p) {
        VarScan::Done(name, q, dot, dotg) => if !reserved(name) { match raw_lookup(ps, g, name, at(c.s, st.p) == Some('@')) {
            Some(Value::Obj(o)) => if dot && st.p < q <= c.s.len() { lemma_var_inst_mono(c, St { p: q, ..st }, raw_all(o), g, g2, d + 1, b, v); },
            _ => {},
        } },
        _ => {},
    }
}
pub proof fn lemma_el_mono(c: Cx, st: St, ps: Seq<Pair>, g: Map<Seq<char>, Value>, g2: Map<Seq<char>, Value>, m: Map<(IK, Seq<char>), Value>, m2: Map<(IK, Seq<char>), Value>, d: int, b: Option<char>, vs: Seq<Value>)
    requires keepsg(g, g2), keeps(m, m2), el_inst(c, st, ps, g, m, d, b, vs) ensures el_inst(c, st, ps, g2, m2, d, b, vs)
{
    assert forall|k: int| 0 <= k < vs.len() implies el_one(c, st, ps, g2, m2, d, b, k, #[trigger] vs[k]) by { lemma_val_inst_mono(c, st, ps, g, g2, m, m2, d, b, vs, k); }
}
pub proof fn lemma_val_inst_mono(c: Cx, st: St, ps: Seq<Pair>, g: Map<Seq<char>, Value>, g2: Map<Seq<char>, Value>, m: Map<(IK, Seq<char>), Value>, m2: Map<(IK, Seq<char>), Value>, d: int, b: Option<char>, vs: Seq<Value>, k: int)
    requires keepsg(g, g2), keeps(m, m2), 0 <= k < vs.len(), el_inst(c, st, ps, g, m, d, b, vs) ensures el_one(c, st, ps, g2, m2, d, b, k, vs[k])
{
    let s = el_st(c, st, psv(ps), d, b, k); let s1 = St { p: skip(c.s, s.p), ..s };
    assert(el_one(c, st, ps, g, m, d, b, k, vs[k]));
    if var_inst(c, s1, ps, g, d, b, vs[k]) { lemma_var_inst_mono(c, s1, ps, g, g2, d, b, vs[k]); }
    match inc_key(c, s1, psv(ps), d + 1) { Some(q) => { if m.dom().contains(q) { assert(m2.dom().contains(q) && m2[q] == m[q]); } }, None => {} }
}
/// One more element.
pub proof fn lemma_el_push(c: Cx, st: St, ps: Seq<Pair>, g: Map<Seq<char>, Value>, g2: Map<Seq<char>, Value>, m: Map<(IK, Seq<char>), Value>, m2: Map<(IK, Seq<char>), Value>, d: int, b: Option<char>, vs: Seq<Value>, v: Value)
    requires keepsg(g, g2), keeps(m, m2), el_inst(c, st, ps, g, m, d, b, vs), el_one(c, st, ps, g, m2, d, b, vs.len() as int, v)
    ensures el_inst(c, st, ps, g2, m2, d, b, vs.push(v))
{
    lemma_el_mono(c, st, ps, g, g2, m, m2, d, b, vs);
    let k = vs.len() as int; let s = el_st(c, st, psv(ps), d, b, k); let s1 = St { p: skip(c.s, s.p), ..s };
    if var_inst(c, s1, ps, g, d, b, v) { lemma_var_inst_mono(c, s1, ps, g, g2, d, b, v); }
    assert forall|j: int| 0 <= j < vs.push(v).len() implies el_one(c, st, ps, g2, m2, d, b, j, #[trigger] vs.push(v)[j]) by { if j < vs.len() { assert(vs.push(v)[j] == vs[j]); } }
}
