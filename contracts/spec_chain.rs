// ------------------------------------------------------------------ what a chain of operators means (C09)
/// An operand with the operator before it and its position.
pub struct Item { pub op: BinaryOp, pub v: V, pub l: int, pub co: int }
pub open spec fn is_sum(op: BinaryOp) -> bool { op is Plus || op is Minus }
/// A product: operators of the higher level, from left to right.
pub open spec fn e_term(c: Cx, a: V, xs: Seq<Item>) -> Result<V, PErr> decreases xs.len() {
    if xs.len() == 0 { Ok(a) } else { match e_term(c, a, xs.drop_last()) { Ok(v) => sp_bin(c, v, xs.last().v, xs.last().op, xs.last().l, xs.last().co), Err(e) => Err(e) } }
}
/// The place of the last operator of the lower level.
pub open spec fn last_sum(xs: Seq<Item>) -> int decreases xs.len() {
    if xs.len() == 0 { -1 } else if is_sum(xs.last().op) { xs.len() - 1 } else { last_sum(xs.drop_last()) }
}
/// A sum: what stands left of the last operator of the lower level, and the product right of it.
pub open spec fn e_sum(c: Cx, a: V, xs: Seq<Item>) -> Result<V, PErr> decreases xs.len() {
    let k = last_sum(xs);
    if k < 0 || k >= xs.len() { e_term(c, a, xs) } else { match (e_sum(c, a, xs.take(k)), e_term(c, xs[k].v, xs.skip(k + 1))) {
        (Ok(x), Ok(y)) => sp_bin(c, x, y, xs[k].op, xs[k].l, xs[k].co), (Err(e), _) => Err(e), (_, Err(e)) => Err(e) } }
}
proof fn lemma_last_sum(xs: Seq<Item>) ensures -1 <= last_sum(xs) < xs.len(), last_sum(xs) >= 0 ==> is_sum(xs[last_sum(xs)].op) decreases xs.len() { if xs.len() > 0 && !is_sum(xs.last().op) { lemma_last_sum(xs.drop_last()); } }
/// The operators and operands in the text, nothing computed.
pub open spec fn operands(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>) -> Option<(Seq<Item>, St)> decreases c.s.len() - st.p {
    match at(c.s, st.p) {
        None => Some((Seq::empty(), st)),
        Some(ch) => match op_of(ch) {
            None => Some((Seq::empty(), st)),
            Some(op) => {
                let q = st.p + 1;
                if q >= c.s.len() { None } else { match sp_prim(c, St { p: q, ..st }, ps, d, b) {
                    Err(_) => None,
                    Ok((v, st2)) => if !(q < st2.p <= c.s.len()) { None } else { match operands(c, st2, ps, d, b) {
                        None => None,
                        Some((xs, s3)) => Some((seq![Item { op, v, l: ln(c.s, q), co: cl(c.s, q) }] + xs, s3)),
                    } },
                } }
            }
        },
    }
}
/// The queues after the items.
spec fn queues(c: Cx, a: (V, int, int), xs: Seq<Item>) -> Result<(Seq<(V, int, int)>, Seq<BinaryOp>), PErr> decreases xs.len() {
    if xs.len() == 0 { Ok((seq![a], Seq::empty())) } else { match queues(c, a, xs.drop_last()) {
        Err(e) => Err(e),
        Ok((vals, ops)) => { let y = xs.last(); if is_sum(y.op) { Ok((vals.push((y.v, y.l, y.co)), ops.push(y.op))) } else { match sp_bin(c, vals.last().0, y.v, y.op, y.l, y.co) { Err(e) => Err(e), Ok(w) => Ok((vals.drop_last().push((w, vals.last().1, vals.last().2)), ops)) } } },
    } }
}
proof fn lemma_queues_prefix(c: Cx, a: (V, int, int), xs: Seq<Item>, ys: Seq<Item>) requires queues(c, a, xs) is Err ensures queues(c, a, xs + ys) is Err decreases ys.len() {
    if ys.len() == 0 { assert(xs + ys =~= xs); } else { assert((xs + ys).drop_last() =~= xs + ys.drop_last()); lemma_queues_prefix(c, a, xs, ys.drop_last()); }
}
proof fn lemma_sp_fold_push(c: Cx, a: V, vals: Seq<(V, int, int)>, ops: Seq<BinaryOp>, x: (V, int, int), o: BinaryOp) requires vals.len() == ops.len()
    ensures sp_fold(c, a, vals.push(x), ops.push(o)) == (match sp_fold(c, a, vals, ops) { Ok(v) => sp_bin(c, v, x.0, o, x.1, x.2), Err(e) => Err(e) }) decreases ops.len()
{
    if ops.len() == 0 {
        assert(vals.push(x)[0] == x && ops.push(o)[0] == o);
        assert(vals.push(x).skip(1).len() == 0);
        reveal_with_fuel(sp_fold, 3);
    } else {
        assert(vals.push(x).skip(1) =~= vals.skip(1).push(x)); assert(ops.push(o).skip(1) =~= ops.skip(1).push(o));
        if let Ok(v) = sp_bin(c, a, vals[0].0, ops[0], vals[0].1, vals[0].2) { lemma_sp_fold_push(c, v, vals.skip(1), ops.skip(1), x, o); }
    }
}
/// Both readings of the same items: the queues hold the sum so far.
#[verifier::opaque] spec fn agrees(c: Cx, a: (V, int, int), xs: Seq<Item>) -> bool {
    let k = last_sum(xs);
    match queues(c, a, xs) {
        Err(_) => if k < 0 { e_term(c, a.0, xs) is Err } else { e_sum(c, a.0, xs.take(k)) is Err || e_term(c, xs[k].v, xs.skip(k + 1)) is Err },
        Ok((vals, ops)) => vals.len() == ops.len() + 1 && (ops.len() == 0 <==> k < 0)
            && e_term(c, if k < 0 { a.0 } else { xs[k].v }, xs.skip(k + 1)) == Ok::<V, PErr>(vals.last().0)
            && (k >= 0 ==> ops.last() == xs[k].op && vals.last().1 == xs[k].l && vals.last().2 == xs[k].co && same_res(sp_fold(c, vals[0].0, vals.skip(1).drop_last(), ops.drop_last()), e_sum(c, a.0, xs.take(k))))
            && same_res(sp_fold(c, vals[0].0, vals.skip(1), ops), e_sum(c, a.0, xs)),
    }
}
spec fn same_res(x: Result<V, PErr>, y: Result<V, PErr>) -> bool { match (x, y) { (Ok(a), Ok(b)) => a == b, (Err(_), Err(_)) => true, _ => false } }
proof fn lemma_agrees_none(c: Cx, a: (V, int, int)) ensures agrees(c, a, Seq::empty())
{
    reveal(agrees);
    let xs = Seq::<Item>::empty();
    assert(xs.skip(0) =~= xs);
    assert(seq![a].skip(1).len() == 0);
    reveal_with_fuel(e_sum, 2); reveal_with_fuel(e_term, 2); reveal_with_fuel(sp_fold, 2); reveal_with_fuel(queues, 2); reveal_with_fuel(last_sum, 2);
}
proof fn lemma_agrees_sum(c: Cx, a: (V, int, int), xs: Seq<Item>) requires xs.len() > 0, is_sum(xs.last().op), agrees(c, a, xs.drop_last()) ensures agrees(c, a, xs)
{
    reveal(agrees);
    let x0 = xs.drop_last(); let y = xs.last(); let k = last_sum(xs);
    lemma_last_sum(x0);
    assert(k == xs.len() - 1); assert(xs.take(k) =~= x0); assert(xs.skip(k + 1).len() == 0);
    assert(e_term(c, y.v, xs.skip(k + 1)) == Ok::<V, PErr>(y.v));
    if let Ok((vals, ops)) = queues(c, a, x0) {
        let v2 = vals.push((y.v, y.l, y.co)); let o2 = ops.push(y.op);
        assert(queues(c, a, xs) == Ok::<(Seq<(V, int, int)>, Seq<BinaryOp>), PErr>((v2, o2)));
        assert(v2.skip(1) =~= vals.skip(1).push((y.v, y.l, y.co)));
        lemma_sp_fold_push(c, vals[0].0, vals.skip(1), ops, (y.v, y.l, y.co), y.op);
        assert(v2.skip(1).drop_last() =~= vals.skip(1)); assert(o2.drop_last() =~= ops);
        assert(v2[0] == vals[0]);
    }
}
proof fn lemma_agrees_first(c: Cx, a: (V, int, int), xs: Seq<Item>) requires xs.len() > 0, !is_sum(xs.last().op), last_sum(xs) < 0, agrees(c, a, xs.drop_last()) ensures agrees(c, a, xs)
{
    reveal(agrees);
    let x0 = xs.drop_last(); let y = xs.last();
    lemma_last_sum(xs);
    assert(last_sum(xs) == last_sum(x0)); assert(last_sum(xs) == -1);
    assert(xs.skip(0) =~= xs); assert(x0.skip(0) =~= x0);
    if let Ok((vals, ops)) = queues(c, a, x0) {
        assert(vals.len() == 1 && ops.len() == 0);
        assert(e_term(c, a.0, xs) == sp_bin(c, vals.last().0, y.v, y.op, y.l, y.co));
        if let Ok(w) = sp_bin(c, vals.last().0, y.v, y.op, y.l, y.co) {
            let v2 = vals.drop_last().push((w, vals.last().1, vals.last().2));
            assert(queues(c, a, xs) == Ok::<(Seq<(V, int, int)>, Seq<BinaryOp>), PErr>((v2, ops)));
            assert(v2[0].0 == w);
            assert(sp_fold(c, w, v2.skip(1), ops) == Ok::<V, PErr>(w));
        }
    }
}
proof fn lemma_agrees_more(c: Cx, a: (V, int, int), xs: Seq<Item>) requires xs.len() > 0, !is_sum(xs.last().op), last_sum(xs) >= 0, agrees(c, a, xs.drop_last()) ensures agrees(c, a, xs)
{
    reveal(agrees);
    let x0 = xs.drop_last(); let y = xs.last(); let k = last_sum(xs);
    lemma_last_sum(xs); lemma_last_sum(x0);
    assert(k == last_sum(x0));
    assert(xs.skip(k + 1).drop_last() =~= x0.skip(k + 1)); assert(xs.skip(k + 1).last() == y);
    assert(xs[k] == x0[k]); assert(xs.take(k) =~= x0.take(k));
    if let Ok((vals, ops)) = queues(c, a, x0) {
        assert(e_term(c, xs[k].v, xs.skip(k + 1)) == sp_bin(c, vals.last().0, y.v, y.op, y.l, y.co));
        if let Ok(w) = sp_bin(c, vals.last().0, y.v, y.op, y.l, y.co) {
            let v2 = vals.drop_last().push((w, vals.last().1, vals.last().2));
            assert(queues(c, a, xs) == Ok::<(Seq<(V, int, int)>, Seq<BinaryOp>), PErr>((v2, ops)));
            assert(v2[0] == vals[0]);
            assert(v2.skip(1).drop_last() =~= vals.skip(1).drop_last());
            assert(v2.skip(1) =~= v2.skip(1).drop_last().push(v2.last())); assert(ops =~= ops.drop_last().push(ops.last()));
            lemma_sp_fold_push(c, vals[0].0, v2.skip(1).drop_last(), ops.drop_last(), v2.last(), ops.last());
        }
    }
}
proof fn lemma_agrees(c: Cx, a: (V, int, int), xs: Seq<Item>) ensures agrees(c, a, xs) decreases xs.len()
{
    if xs.len() == 0 { assert(xs =~= Seq::empty()); lemma_agrees_none(c, a); }
    else {
        lemma_agrees(c, a, xs.drop_last());
        if is_sum(xs.last().op) { lemma_agrees_sum(c, a, xs); } else if last_sum(xs) < 0 { lemma_agrees_first(c, a, xs); } else { lemma_agrees_more(c, a, xs); }
    }
}
/// Reading with the queues and reading everything first come to the same.
proof fn lemma_chain_queues(c: Cx, a: (V, int, int), xs: Seq<Item>, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, vals: Seq<(V, int, int)>, ops: Seq<BinaryOp>)
    requires queues(c, a, xs) == Ok::<(Seq<(V, int, int)>, Seq<BinaryOp>), PErr>((vals, ops)), vals.len() > 0
    ensures match operands(c, st, ps, d, b) {
        None => sp_chain(c, st, ps, d, b, vals, ops) is Err,
        Some((ys, s2)) => match queues(c, a, xs + ys) { Err(_) => sp_chain(c, st, ps, d, b, vals, ops) is Err, Ok((v2, o2)) => sp_chain(c, st, ps, d, b, vals, ops) == Ok::<(Seq<(V, int, int)>, Seq<BinaryOp>, St), PErr>((v2, o2, s2)) },
    }
    decreases c.s.len() - st.p
{
    unfold_sp_chain(c, st, ps, d, b, vals, ops);
    assert(xs + Seq::<Item>::empty() =~= xs);
    if let Some(ch) = at(c.s, st.p) { if let Some(op) = op_of(ch) {
        let q = st.p + 1;
        if q < c.s.len() { if let Ok((v2, st2)) = sp_prim(c, St { p: q, ..st }, ps, d, b) { if q < st2.p <= c.s.len() {
            let y = Item { op, v: v2, l: ln(c.s, q), co: cl(c.s, q) };
            let x1 = xs.push(y);
            assert(x1.drop_last() =~= xs && x1.last() == y);
            if let Some((ys, s3)) = operands(c, st2, ps, d, b) {
                assert(xs + (seq![y] + ys) =~= x1 + ys);
                if queues(c, a, x1) is Err { lemma_queues_prefix(c, a, x1, ys); }
            }
            if let Ok((w1, o1)) = queues(c, a, x1) { lemma_chain_queues(c, a, x1, st2, ps, d, b, w1, o1); }
        } } }
    } }
}
/// C09: a value with operators denotes the value of its operands read as a sum of products, each level from left to right,
/// each operator applied to the operand written directly after it.
pub proof fn th_chain(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>)
    ensures ({
        let r = sp_full(c, st, ps, d, b);
        match sp_prim(c, st, ps, d, b) {
            Err(_) => r is Err,
            Ok((v, st1)) => if !(st.p < st1.p <= c.s.len()) { r is Err } else { match operands(c, st1, ps, d, b) {
                None => r is Err,
                Some((xs, s2)) => match (sp_value_end(c, s2.p, b), e_sum(c, v, xs)) { (Ok(_), Ok(w)) => r == Ok::<(V, St), PErr>((w, s2)), _ => r is Err },
            } },
        }
    })
{
    unfold_sp_full(c, st, ps, d, b);
    if let Ok((v, st1)) = sp_prim(c, st, ps, d, b) { if st.p < st1.p <= c.s.len() {
        let a = (v, ln(c.s, st.p), cl(c.s, st.p));
        lemma_chain_queues(c, a, Seq::empty(), st1, ps, d, b, seq![a], Seq::empty());
        if let Some((xs, s2)) = operands(c, st1, ps, d, b) { assert(Seq::<Item>::empty() + xs =~= xs); reveal(agrees); lemma_agrees(c, a, xs); lemma_last_sum(xs); }
    } }
}
