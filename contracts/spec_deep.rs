// ------------------------------------------------------------------ texts that nest too deep (C12)
pub open spec fn opening(ch: char) -> bool { ch == '[' || ch == '(' || ch == '+' || ch == '-' }
/// C12: however long a run of openings and signs is, once it exceeds what is left of the depth the answer is the depth error,
/// at a place inside the run: nothing after it is read.
pub proof fn th_deep(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, k: int)
    requires 0 <= st.p, st.p + k <= c.s.len(), d <= 65, d + k > 65, forall|i: int| st.p <= i < st.p + k ==> opening(#[trigger] c.s[i])
    ensures exists|q: int| st.p <= q < st.p + k && sp_prim(c, st, ps, d, b) == #[trigger] e_depth::<(V, St)>(c, q)
    decreases k
{
    let ch = c.s[st.p]; let p = st.p + 1;
    unfold_sp_prim(c, st, ps, d, b);
    if k > 1 { axiom_ascii(c.s[p]); assert(opening(c.s[p])); assert(skip(c.s, p) == p); }
    if ch == '[' {
        unfold_sp_arr(c, st, ps, d + 1);
        if d + 1 > 64 { assert(sp_prim(c, st, ps, d, b) == e_depth::<(V, St)>(c, st.p)); } else {
            let s1 = St { p, ..st };
            unfold_sp_elems(c, s1, ps, d + 1, Some(']'), Seq::empty(), Some(T::Any)); unfold_sp_full(c, s1, ps, d + 1, Some(']'));
            th_deep(c, s1, ps, d + 1, Some(']'), k - 1);
            let q = choose|q: int| p <= q < st.p + k && sp_prim(c, s1, ps, d + 1, Some(']')) == #[trigger] e_depth::<(V, St)>(c, q);
            assert(sp_prim(c, st, ps, d, b) == e_depth::<(V, St)>(c, q));
        }
    } else if ch == '(' {
        unfold_sp_tup(c, st, ps, d + 1);
        if d + 1 > 64 { assert(sp_prim(c, st, ps, d, b) == e_depth::<(V, St)>(c, st.p)); } else {
            let s1 = St { p, ..st };
            unfold_sp_elems(c, s1, ps, d + 1, Some(')'), Seq::empty(), None); unfold_sp_full(c, s1, ps, d + 1, Some(')'));
            th_deep(c, s1, ps, d + 1, Some(')'), k - 1);
            let q = choose|q: int| p <= q < st.p + k && sp_prim(c, s1, ps, d + 1, Some(')')) == #[trigger] e_depth::<(V, St)>(c, q);
            assert(sp_prim(c, st, ps, d, b) == e_depth::<(V, St)>(c, q));
        }
    } else {
        let op = if ch == '+' { UnaryOp::Plus } else { UnaryOp::Minus };
        unfold_sp_unary(c, st, ps, d, b, op);
        if d > 64 { assert(sp_prim(c, st, ps, d, b) == e_depth::<(V, St)>(c, st.p)); } else {
            let s1 = St { p, ..st };
            th_deep(c, s1, ps, d + 1, b, k - 1);
            let q = choose|q: int| p <= q < st.p + k && sp_prim(c, s1, ps, d + 1, b) == #[trigger] e_depth::<(V, St)>(c, q);
            assert(sp_prim(c, st, ps, d, b) == e_depth::<(V, St)>(c, q));
        }
    }
}
