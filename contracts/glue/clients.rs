/// What the macros make of the given values; `own` and `up` say which entries of an object are its pairs and its parent.
pub open spec fn made_arr(r: OverResult<Arr>, s: Seq<Value>) -> bool {
    &&& r is Ok == (arr_type(vsv(s)) is Some)
    &&& r matches Ok(a) ==> a.inner.values@ == s && Some(ty(a.inner.inner_t)) == arr_type(vsv(s))
    &&& r matches Err(e) ==> exists|k: nat| #[trigger] first_clash(vtypes(vsv(s)), k) && e is ArrTypeMismatch && Some(ty(e->ArrTypeMismatch_0)) == msp_fold(vtypes(vsv(s)), k) && ty(e->ArrTypeMismatch_1) == vtypes(vsv(s))[k as int]
}
pub open spec fn made_tup(t: Tup, s: Seq<Value>) -> bool { t.inner.values@ == s && tyv(t.inner.inner_tvec) == vtypes(vsv(s)) }
pub open spec fn up(s: Seq<(Seq<char>, Value)>) -> Option<Value> decreases s.len() {
    if s.len() == 0 { None } else if s.last().0 == seq!['^'] { Some(s.last().1) } else { up(s.drop_last()) }
}
pub open spec fn own(s: Seq<(Seq<char>, Value)>) -> Seq<(Seq<char>, Value)> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last().0 == seq!['^'] { own(s.drop_last()) } else { own(s.drop_last()).push(s.last()) }
}
pub open spec fn bad_up(s: Seq<(Seq<char>, Value)>) -> bool { up(s) is Some && !(up(s)->Some_0 is Obj) }
pub open spec fn names_ok(s: Seq<(Seq<char>, Value)>) -> bool decreases s.len() { s.len() == 0 || ((s.last().0 == seq!['^'] || valid_name(s.last().0)) && names_ok(s.drop_last())) }
pub open spec fn named(s: Seq<(Seq<char>, Value)>, n: Seq<char>) -> bool decreases s.len() { s.len() > 0 && ((s.last().0 == n && n != seq!['^']) || named(s.drop_last(), n)) }
pub open spec fn accepted(r: OverResult<Obj>, s: Seq<(Seq<char>, Value)>) -> bool {
    &&& r is Ok == (!bad_up(s) && names_ok(s))
    &&& r matches Err(e) ==> if bad_up(s) { e is TypeMismatch && e->TypeMismatch_0 == Type::Obj && ty(e->TypeMismatch_1) == vtype(vw(up(s)->Some_0)) }
        else { e is InvalidFieldName && named(s, e->InvalidFieldName_0@) && !valid_name(e->InvalidFieldName_0@) }
}
pub open spec fn made_obj(o: Obj, s: Seq<(Seq<char>, Value)>) -> bool {
    &&& o.inner.parent == (match up(s) { Some(Value::Obj(p)) => Some(p), _ => None })
    &&& o.inner.pairs@.len() == own(s).len()
    &&& forall|i: int| 0 <= i < own(s).len() ==> (#[trigger] o.inner.pairs@[i]).0@ == own(s)[i].0 && o.inner.pairs@[i].1 == own(s)[i].1
}
pub proof fn lemma_vecs(s: Seq<Value>) ensures forall|v: Vec<Value>| #![trigger vws(v)] v@ =~= s ==> v@ == s && vws(v) == vsv(s) {
    assert forall|v: Vec<Value>| #![trigger vws(v)] v@ =~= s implies v@ == s && vws(v) == vsv(s) by { lemma_vsv(&v); }
}
/// The two ways in which the entries can be taken apart.
pub proof fn lemma_entries1(f: Seq<char>, a: Value) ensures ({ let s = seq![(f, a)]; let p = f == seq!['^'];
    up(s) == (if p { Some(a) } else { None }) && own(s) == (if p { Seq::empty() } else { s }) && names_ok(s) == (p || valid_name(f)) && forall|n: Seq<char>| #[trigger] named(s, n) == (f == n && !p) }) {
    let s = seq![(f, a)];
    lemma_drop(Seq::empty(), (f, a)); assert(own(s.drop_last()) == Seq::<(Seq<char>, Value)>::empty()); assert(up(s.drop_last()) is None); assert(names_ok(s.drop_last()));
    assert forall|n: Seq<char>| #[trigger] named(s, n) == (f == n && f != seq!['^']) by { assert(!named(s.drop_last(), n)); }
}
pub proof fn lemma_entries2(f: Seq<char>, a: Value, g: Seq<char>, b: Value) ensures ({ let s = seq![(f, a), (g, b)]; let p = f == seq!['^']; let q = g == seq!['^'];
    up(s) == (if q { Some(b) } else if p { Some(a) } else { None }) && own(s) == (if p && q { Seq::empty() } else if p { seq![(g, b)] } else if q { seq![(f, a)] } else { s })
    && names_ok(s) == ((p || valid_name(f)) && (q || valid_name(g))) && forall|n: Seq<char>| #[trigger] named(s, n) == ((f == n && !p) || (g == n && !q)) }) {
    let s = seq![(f, a), (g, b)]; let t = seq![(f, a)];
    lemma_entries1(f, a); assert(s =~= t.push((g, b))); lemma_drop(t, (g, b));
    assert(Seq::<(Seq<char>, Value)>::empty().push((g, b)) =~= seq![(g, b)]);
    assert forall|n: Seq<char>| #[trigger] named(s, n) == ((f == n && f != seq!['^']) || (g == n && g != seq!['^'])) by { assert(named(t, n) == (f == n && f != seq!['^'])); }
}
pub open spec fn all_valid(ps: Seq<Pair>) -> bool { forall|i: int| 0 <= i < ps.len() ==> valid_name((#[trigger] ps[i]).0@) }
/// One or two names are valid when each of them is.
pub proof fn lemma_names() ensures forall|v: Vec<Pair>| #![trigger v@] (v@.len() == 1 ==> all_valid(v@) == valid_name(v@[0].0@)) && (v@.len() == 2 ==> all_valid(v@) == (valid_name(v@[0].0@) && valid_name(v@[1].0@))) {
    assert forall|v: Vec<Pair>| #![trigger v@] (v@.len() == 1 ==> all_valid(v@) == valid_name(v@[0].0@)) && (v@.len() == 2 ==> all_valid(v@) == (valid_name(v@[0].0@) && valid_name(v@[1].0@))) by {
        if v@.len() == 1 && valid_name(v@[0].0@) { assert(all_valid(v@)); }
        if v@.len() == 2 && valid_name(v@[0].0@) && valid_name(v@[1].0@) { assert(all_valid(v@)); }
    }
}
pub proof fn lemma_drop<A>(s: Seq<A>, x: A) ensures s.push(x).drop_last() == s, s.push(x).last() == x { assert(s.push(x).drop_last() =~= s); }
