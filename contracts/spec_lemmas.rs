// ------------------------------------------------------------------ lemmas on types
pub proof fn lemma_join_noany(a: T, b: T) ensures !has_any(a) && compat(a, b) ==> join(a, b) == a decreases a {
    if !has_any(a) && compat(a, b) {
        match (a, b) {
            (T::Arr(x), T::Arr(y)) => { lemma_join_noany(*x, *y); }
            (T::Tup(x), T::Tup(y)) => {
                assert forall|i: int| 0 <= i < x.len() implies join(#[trigger] x[i], y[i]) == x[i] by { lemma_join_noany(x[i], y[i]); }
                assert(join(a, b)->Tup_0 =~= x);
            }
            _ => {}
        }
    }
}
/// The k-th type is the first that has nothing in common with those before it.
pub open spec fn first_clash(ts: Seq<T>, k: nat) -> bool { k < ts.len() && msp_fold(ts, k) is Some && !compat(msp_fold(ts, k)->Some_0, ts[k as int]) }
pub proof fn lemma_fold_stuck(ts: Seq<T>, k: nat, n: nat) requires k < n <= ts.len() ensures first_clash(ts, k) ==> msp_fold(ts, n) is None decreases n {
    if first_clash(ts, k) { if n > k + 1 { lemma_fold_stuck(ts, k, (n - 1) as nat); } }
}
pub proof fn lemma_gcd_one(a: nat) ensures gcd(a, 1) == 1 {
    assert(a % 1 == 0) by (nonlinear_arith);
    reveal_with_fuel(gcd, 3);
}
pub proof fn lemma_rat_int(n: int) ensures rat(n, 1) == (Q { n, d: 1 }) {
    lemma_gcd_one(abs_i(n) as nat);
    let g = gcd(abs_i(n) as nat, abs_i(1) as nat) as int;
    assert(g == 1);
    assert(n / 1 == n) by (nonlinear_arith);
}
pub proof fn lemma_name_char(c: char, first: bool) ensures name_char(c, first) == (field_char(c, first) && c != '^') { axiom_ascii(c); }

pub proof fn lemma_deep_mono(v: V, d: int, e: int) requires d <= e ensures deep_le(v, d) ==> deep_le(v, e) decreases v {
    if deep_le(v, d) { match v {
        V::Arr(vs, _) => { assert forall|i: int| 0 <= i < vs.len() implies deep_le(#[trigger] vs[i], e - 1) by { lemma_deep_mono(vs[i], d - 1, e - 1); } }
        V::Tup(vs, _) => { assert forall|i: int| 0 <= i < vs.len() implies deep_le(#[trigger] vs[i], e - 1) by { lemma_deep_mono(vs[i], d - 1, e - 1); } }
        V::Obj(o) => { lemma_odeep_mono(o, d, e); }
        _ => {}
    } }
}
pub proof fn lemma_odeep_mono(o: O, d: int, e: int) requires d <= e ensures odeep_le(o, d) ==> odeep_le(o, e) decreases o {
    if odeep_le(o, d) {
        if o.parent is Some { lemma_odeep_mono(*o.parent->Some_0, d - 1, e - 1); }
        assert forall|i: int| 0 <= i < o.pairs.len() implies deep_le((#[trigger] o.pairs[i]).1, e - 1) by { lemma_deep_mono(o.pairs[i].1, d - 1, e - 1); }
    }
}

pub proof fn lemma_ipow_pos(b: int, n: nat) requires b > 0 ensures ipow(b, n) > 0 decreases n { if n > 0 { lemma_ipow_pos(b, (n - 1) as nat); assert(b * ipow(b, (n - 1) as nat) > 0) by (nonlinear_arith) requires b > 0, ipow(b, (n - 1) as nat) > 0; } }
pub proof fn lemma_deep_pos(v: V, d: int) ensures deep_le(v, d) ==> d >= 0 { if v is Obj { assert(odeep_le(v->Obj_0, d) ==> d > 0); } }
pub proof fn lemma_pos(s: Seq<char>, p: int) ensures 1 <= ln(s, p), 1 <= cl(s, p), 0 <= p <= s.len() ==> ln(s, p) <= p + 1 && cl(s, p) <= p + 1 decreases p { if 0 < p <= s.len() { lemma_pos(s, p - 1); } }
/// What `skip` stops at is neither blank nor the start of a comment; it never goes back.
pub proof fn lemma_skip_at(s: Seq<char>, p: int) ensures skip(s, p) >= p || p > s.len(), 0 <= p ==> 0 <= skip(s, p) <= s.len(), 0 <= skip(s, p) < s.len() ==> !is_ws(s[skip(s, p)]) && s[skip(s, p)] != '#' decreases s.len() - p {
    if 0 <= p < s.len() { if s[p] == '#' { let e = line_end(s, p); if p < e <= s.len() { lemma_skip_at(s, e); } } else if is_ws(s[p]) { lemma_skip_at(s, p + 1); } }
}
