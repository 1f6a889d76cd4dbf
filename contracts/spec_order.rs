// ------------------------------------------------------------------ what a field adds (C10, C05)
/// One pair: either nothing more (the end of the object), or one regular field appended under the name written there,
/// or one global added, or the parent set; what was there stays as it is.
pub proof fn th_pair_adds(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, par: Option<O>, d: int, b: Option<char>)
    ensures sp_pair(c, st, ps, par, d, b) matches Ok((more, ps2, par2, s2)) ==> (at(c.s, st.p) == Some('}') && b is Some && !more && ps2 == ps && par2 == par && s2.g == st.g) || match sp_field(c, st.p) {
        Ok((name, FK::Regular, q)) => exists|v: V| ps2 == ps.push((name, v)) && par2 == par && !has_field(ps, name),
        Ok((name, FK::Global, q)) => ps2 == ps && par2 == par && s2.g.dom().contains(name) && !st.g.dom().contains(name),
        Ok((name, FK::Parent, q)) => ps2 == ps && par is None && par2 is Some,
        Err(_) => false,
    }
{
    unfold_sp_pair(c, st, ps, par, d, b);
    if let Ok((more, ps2, par2, s2)) = sp_pair(c, st, ps, par, d, b) { if let Ok((name, FK::Regular, p1)) = sp_field(c, st.p) { if !(at(c.s, st.p) == Some('}') && b is Some) {
        let q = skip(c.s, p1);
        let v = sp_full(c, St { p: q, ..st }, ps, d, b)->Ok_0.0;
        assert(ps2 == ps.push((name, v)));
    } } }
}
/// C10: the fields of an object are in the order in which they are written, after those read before; a parent once set stays.
pub proof fn th_order(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, par: Option<O>, d: int, b: Option<char>)
    ensures sp_fields(c, st, ps, par, d, b) matches Ok((o, s2)) ==> o.pairs.len() >= ps.len() && o.pairs.take(ps.len() as int) == ps && (par matches Some(x) ==> o.parent == Some(Box::new(x)))
    decreases 70 - d, 0int, c.s.len() - st.p, 5int
{
    unfold_sp_fields(c, st, ps, par, d, b); th_pair_adds(c, st, ps, par, d, b);
    if let Ok((more, ps2, par2, st2)) = sp_pair(c, st, ps, par, d, b) {
        assert(ps2.len() >= ps.len() && ps2.take(ps.len() as int) =~= ps);
        if more && st.p < st2.p <= c.s.len() {
            th_order(c, st2, ps2, par2, d, b);
            if let Ok((o, s2)) = sp_fields(c, st2, ps2, par2, d, b) { assert(o.pairs.take(ps.len() as int) =~= o.pairs.take(ps2.len() as int).take(ps.len() as int)); }
        }
    }
}
/// C10: a name denotes the same for every later reading in the object: what is defined once is found as it was.
pub proof fn th_scope_kept(ps: Seq<(Seq<char>, V)>, qs: Seq<(Seq<char>, V)>, f: Seq<char>)
    requires qs.len() >= ps.len(), qs.take(ps.len() as int) == ps, sp_find(ps, f) is Some
    ensures sp_find(qs, f) == sp_find(ps, f)
{
    assert(qs =~= ps + qs.skip(ps.len() as int));
    lemma_find_cat(ps, qs.skip(ps.len() as int), f, 0);
}
