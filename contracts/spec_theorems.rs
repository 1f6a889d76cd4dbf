// ------------------------------------------------------------------ what the specification functions amount to
// The contracts equate the code with compat, join, veq, esc, skip, ...; the lemmas of this part show that
// these have the properties that are claimed, so a property follows from a contract plus a lemma.

// C01: the join of two types is their least upper bound in the refinement order, and exists exactly
// when there is any type refining both.
pub proof fn th_compat_refl(a: T) ensures compat(a, a) decreases a {
    match a {
        T::Arr(x) => { th_compat_refl(*x); }
        T::Tup(x) => { assert forall|i: int| 0 <= i < x.len() implies compat(#[trigger] x[i], x[i]) by { th_compat_refl(x[i]); } }
        _ => {}
    }
}
pub proof fn th_compat_sym(a: T, b: T) ensures compat(a, b) == compat(b, a) decreases a {
    if !(a is Any || b is Any) { match (a, b) {
        (T::Arr(x), T::Arr(y)) => { th_compat_sym(*x, *y); }
        (T::Tup(x), T::Tup(y)) => { if x.len() == y.len() { assert forall|i: int| 0 <= i < x.len() implies compat(#[trigger] x[i], y[i]) == compat(y[i], x[i]) by { th_compat_sym(x[i], y[i]); }
            if compat(b, a) { assert forall|i: int| 0 <= i < x.len() implies compat(#[trigger] x[i], y[i]) by { assert(compat(y[i], x[i])); } }
            if compat(a, b) { assert forall|i: int| 0 <= i < y.len() implies compat(#[trigger] y[i], x[i]) by { assert(compat(x[i], y[i])); } } } }
        _ => {}
    } }
}
pub proof fn th_refines_refl(a: T) ensures refines(a, a) decreases a {
    match a {
        T::Arr(x) => { th_refines_refl(*x); }
        T::Tup(x) => { assert forall|i: int| 0 <= i < x.len() implies refines(a->Tup_0[i], #[trigger] x[i]) by { th_refines_refl(x[i]); } }
        _ => {}
    }
}
pub proof fn th_refines_trans(a: T, b: T, c: T) requires refines(a, b), refines(b, c) ensures refines(a, c) decreases c {
    match c {
        T::Arr(x) => { th_refines_trans(*a->Arr_0, *b->Arr_0, *x); }
        T::Tup(x) => { assert forall|i: int| 0 <= i < x.len() implies refines(a->Tup_0[i], #[trigger] x[i]) by { assert(refines(b->Tup_0[i], x[i])); assert(refines(a->Tup_0[i], b->Tup_0[i])); th_refines_trans(a->Tup_0[i], b->Tup_0[i], x[i]); } }
        _ => {}
    }
}
pub proof fn th_refines_antisym(a: T, b: T) requires refines(a, b), refines(b, a) ensures a == b decreases a {
    match a {
        T::Arr(x) => { th_refines_antisym(*x, *b->Arr_0); }
        T::Tup(x) => { assert(b is Tup); let y = b->Tup_0; assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(refines(y[i], x[i])); assert(refines(a->Tup_0[i], y[i])); th_refines_antisym(x[i], y[i]); } assert(x =~= y); }
        _ => {}
    }
}
/// The join refines both types,
pub proof fn th_join_upper(a: T, b: T) requires compat(a, b) ensures refines(join(a, b), a), refines(join(a, b), b) decreases a {
    th_refines_refl(a); th_refines_refl(b);
    if !(a is Any || b is Any) { match (a, b) {
        (T::Arr(x), T::Arr(y)) => { th_join_upper(*x, *y); }
        (T::Tup(x), T::Tup(y)) => {
            let j = join(a, b)->Tup_0;
            assert forall|i: int| 0 <= i < x.len() implies refines(j[i], #[trigger] x[i]) && refines(j[i], y[i]) by { assert(compat(x[i], y[i])); th_join_upper(x[i], y[i]); }
            assert forall|i: int| 0 <= i < y.len() implies refines(j[i], #[trigger] y[i]) by { assert(refines(j[i], x[i]) && refines(j[i], y[i])); }
        }
        _ => {}
    } }
}
/// every type that refines both refines the join, and only compatible types have one.
pub proof fn th_join_least(r: T, a: T, b: T) requires refines(r, a), refines(r, b) ensures compat(a, b), refines(r, join(a, b)) decreases a {
    if !(a is Any || b is Any) { match (a, b) {
        (T::Arr(x), T::Arr(y)) => { th_join_least(*r->Arr_0, *x, *y); }
        (T::Tup(x), T::Tup(y)) => {
            let rr = r->Tup_0; let j = join(a, b)->Tup_0;
            assert forall|i: int| 0 <= i < x.len() implies compat(#[trigger] x[i], y[i]) && refines(rr[i], j[i]) by { assert(refines(rr[i], x[i])); assert(refines(rr[i], y[i])); th_join_least(rr[i], x[i], y[i]); }
            assert forall|i: int| 0 <= i < j.len() implies refines(rr[i], #[trigger] j[i]) by { assert(compat(x[i], y[i]) && refines(rr[i], j[i])); }
        }
        _ => { assert(a == b) by { if a is Tup || a is Arr {} } }
    } }
}
pub proof fn th_join_comm(a: T, b: T) requires compat(a, b) ensures join(a, b) == join(b, a) {
    th_compat_sym(a, b);
    th_join_upper(a, b); th_join_upper(b, a);
    th_join_least(join(a, b), b, a); th_join_least(join(b, a), a, b);
    th_refines_antisym(join(a, b), join(b, a));
}
/// A type refines itself only trivially once it is free of Any.
pub proof fn th_noany_refines(r: T, a: T) requires refines(r, a), !has_any(a) ensures r == a decreases a {
    match a {
        T::Arr(x) => { th_noany_refines(*r->Arr_0, *x); }
        T::Tup(x) => { assert forall|i: int| 0 <= i < x.len() implies r->Tup_0[i] == #[trigger] x[i] by { assert(refines(r->Tup_0[i], x[i])); assert(!has_any(x[i])); th_noany_refines(r->Tup_0[i], x[i]); } assert(r->Tup_0 =~= x); }
        _ => {}
    }
}

// C02: the folded type of a sequence is the least type refining all of them, and there is none exactly
// when no type refines all of them; so it does not depend on the order, and adding two arrays joins it.
pub open spec fn refines_all(r: T, ts: Seq<T>) -> bool { forall|i: int| 0 <= i < ts.len() ==> refines(r, #[trigger] ts[i]) }
pub proof fn th_fold_upper(ts: Seq<T>, n: nat) requires n <= ts.len(), msp_fold(ts, n) is Some ensures refines_all(msp_fold(ts, n)->Some_0, ts.take(n as int)) decreases n {
    if n > 0 {
        let m = (n - 1) as nat;
        th_fold_upper(ts, m);
        let t = msp_fold(ts, m)->Some_0; let j = msp_fold(ts, n)->Some_0;
        th_join_upper(t, ts[n - 1]);
        assert forall|i: int| 0 <= i < n implies refines(j, #[trigger] ts.take(n as int)[i]) by {
            if i < n - 1 { assert(refines(t, ts.take(m as int)[i])); th_refines_trans(j, t, ts[i]); }
        }
    }
}
pub proof fn th_fold_least(r: T, ts: Seq<T>, n: nat) requires n <= ts.len(), refines_all(r, ts.take(n as int)) ensures msp_fold(ts, n) is Some, refines(r, msp_fold(ts, n)->Some_0) decreases n {
    if n > 0 {
        let m = (n - 1) as nat;
        assert(refines_all(r, ts.take(m as int))) by { assert forall|i: int| 0 <= i < m implies refines(r, #[trigger] ts.take(m as int)[i]) by { assert(refines(r, ts.take(n as int)[i])); } }
        th_fold_least(r, ts, m);
        assert(refines(r, ts.take(n as int)[n - 1]));
        th_join_least(r, msp_fold(ts, m)->Some_0, ts[n - 1]);
    }
}
/// The type of the concatenation of two homogeneous sequences is the join of their types.
pub proof fn th_fold_concat(a: Seq<T>, b: Seq<T>) requires msp_fold(a, a.len()) is Some, msp_fold(b, b.len()) is Some
    ensures msp_fold(a + b, (a + b).len()) == msp(msp_fold(a, a.len())->Some_0, msp_fold(b, b.len())->Some_0)
{
    let c = a + b; let t = msp_fold(a, a.len())->Some_0; let u = msp_fold(b, b.len())->Some_0;
    assert(a.take(a.len() as int) =~= a); assert(b.take(b.len() as int) =~= b); assert(c.take(c.len() as int) =~= c);
    th_fold_upper(a, a.len()); th_fold_upper(b, b.len());
    if compat(t, u) {
        let j = join(t, u);
        th_join_upper(t, u);
        assert forall|i: int| 0 <= i < c.len() implies refines(j, #[trigger] c[i]) by {
            if i < a.len() { assert(refines(t, a[i])); th_refines_trans(j, t, a[i]); } else { assert(refines(u, b[i - a.len()])); th_refines_trans(j, u, b[i - a.len()]); }
        }
        th_fold_least(j, c, c.len());
        let f = msp_fold(c, c.len())->Some_0;
        th_fold_upper(c, c.len());
        th_fold_parts(f, a, b);
        th_join_least(f, t, u);
        th_refines_antisym(f, j);
    } else if msp_fold(c, c.len()) is Some {
        let f = msp_fold(c, c.len())->Some_0;
        th_fold_upper(c, c.len());
        th_fold_parts(f, a, b);
        th_join_least(f, t, u);
    }
}
proof fn th_fold_parts(f: T, a: Seq<T>, b: Seq<T>) requires refines_all(f, a + b)
    ensures msp_fold(a, a.len()) is Some, refines(f, msp_fold(a, a.len())->Some_0), msp_fold(b, b.len()) is Some, refines(f, msp_fold(b, b.len())->Some_0)
{
    assert(a.take(a.len() as int) =~= a); assert(b.take(b.len() as int) =~= b);
    assert forall|i: int| 0 <= i < a.len() implies refines(f, #[trigger] a[i]) by { assert(a[i] == (a + b)[i]); }
    assert forall|i: int| 0 <= i < b.len() implies refines(f, #[trigger] b[i]) by { assert(b[i] == (a + b)[a.len() + i]); }
    th_fold_least(f, a, a.len()); th_fold_least(f, b, b.len());
}

// C03: on values whose containers carry the right types, the implementation's equality is exactly
// structural equality, and structurally equal values have identical types.
pub proof fn th_eq_types(a: V, b: V) requires vwf(a), vwf(b), seq_eq(a, b) ensures vtype(a) == vtype(b) decreases a {
    match (a, b) {
        (V::Arr(x, t), V::Arr(y, u)) => { th_eq_types_seq(x, y); assert(vtypes(x) =~= vtypes(y)); }
        (V::Tup(x, t), V::Tup(y, u)) => { th_eq_types_seq(x, y); assert(vtypes(x) =~= vtypes(y)); }
        _ => {}
    }
}
proof fn th_eq_types_seq(x: Seq<V>, y: Seq<V>)
    requires x.len() == y.len(), forall|i: int| 0 <= i < x.len() ==> vwf(#[trigger] x[i]), forall|i: int| 0 <= i < y.len() ==> vwf(#[trigger] y[i]), forall|i: int| 0 <= i < x.len() ==> seq_eq(#[trigger] x[i], y[i])
    ensures forall|i: int| 0 <= i < x.len() ==> vtype(#[trigger] x[i]) == vtype(y[i])
    decreases x
{
    assert forall|i: int| 0 <= i < x.len() implies vtype(#[trigger] x[i]) == vtype(y[i]) by { assert(vwf(y[i])); th_eq_types(x[i], y[i]); }
}
pub proof fn th_veq_structural(a: V, b: V) requires vwf(a), vwf(b) ensures veq(a, b) == seq_eq(a, b) decreases a {
    match (a, b) {
        (V::Arr(x, t), V::Arr(y, u)) => {
            th_veq_seq(x, y);
            if seq_eq(a, b) { th_eq_types(a, b); th_compat_refl(t); }
        }
        (V::Tup(x, t), V::Tup(y, u)) => {
            th_veq_seq(x, y);
            if seq_eq(a, b) { th_eq_types(a, b); th_compat_refl(T::Tup(t)); }
        }
        (V::Obj(x), V::Obj(y)) => { th_oeq_structural(x, y); }
        _ => {}
    }
}
proof fn th_veq_seq(x: Seq<V>, y: Seq<V>)
    requires forall|i: int| 0 <= i < x.len() ==> vwf(#[trigger] x[i]), forall|i: int| 0 <= i < y.len() ==> vwf(#[trigger] y[i])
    ensures x.len() == y.len() ==> forall|i: int| 0 <= i < x.len() ==> veq(#[trigger] x[i], y[i]) == seq_eq(x[i], y[i])
    decreases x
{
    if x.len() == y.len() { assert forall|i: int| 0 <= i < x.len() implies veq(#[trigger] x[i], y[i]) == seq_eq(x[i], y[i]) by { assert(vwf(y[i])); th_veq_structural(x[i], y[i]); } }
}
pub proof fn th_oeq_structural(a: O, b: O) requires owf(a), owf(b) ensures oeq(a, b) == soeq(a, b) decreases a {
    match (a.parent, b.parent) { (Some(p), Some(q)) => { th_oeq_structural(*p, *q); } _ => {} }
    if a.pairs.len() == b.pairs.len() {
        assert forall|i: int| 0 <= i < a.pairs.len() implies veq((#[trigger] a.pairs[i]).1, b.pairs[i].1) == seq_eq(a.pairs[i].1, b.pairs[i].1) by { assert(vwf(b.pairs[i].1)); th_veq_structural(a.pairs[i].1, b.pairs[i].1); }
        if oeq(a, b) { assert forall|i: int| 0 <= i < a.pairs.len() implies (#[trigger] a.pairs[i]).0 == b.pairs[i].0 && seq_eq(a.pairs[i].1, b.pairs[i].1) by { assert(veq(a.pairs[i].1, b.pairs[i].1)); } }
        if soeq(a, b) { assert forall|i: int| 0 <= i < a.pairs.len() implies (#[trigger] a.pairs[i]).0 == b.pairs[i].0 && veq(a.pairs[i].1, b.pairs[i].1) by { assert(seq_eq(a.pairs[i].1, b.pairs[i].1)); } }
    }
}
/// C03: equality is reflexive.
pub proof fn th_veq_refl(a: V) ensures veq(a, a) decreases a {
    match a {
        V::Arr(x, t) => { th_compat_refl(t); assert forall|i: int| 0 <= i < x.len() implies veq(#[trigger] x[i], x[i]) by { th_veq_refl(x[i]); } }
        V::Tup(x, t) => { th_compat_refl(T::Tup(t)); assert forall|i: int| 0 <= i < x.len() implies veq(#[trigger] x[i], x[i]) by { th_veq_refl(x[i]); } }
        V::Obj(o) => { th_oeq_refl(o); }
        _ => {}
    }
}
pub proof fn th_oeq_refl(a: O) ensures oeq(a, a) decreases a {
    match a.parent { Some(p) => { th_oeq_refl(*p); } None => {} }
    assert forall|i: int| 0 <= i < a.pairs.len() implies (#[trigger] a.pairs[i]).0 == a.pairs[i].0 && veq(a.pairs[i].1, a.pairs[i].1) by { th_veq_refl(a.pairs[i].1); }
}
