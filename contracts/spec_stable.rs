// ------------------------------------------------------------------ writing and reading back whatever was read (C14)
/// What the parser can produce is what the round-trip theorem asks of a value.
pub proof fn th_good_wr(v: V) requires vgood(v) ensures wr(v) decreases v {
    match v {
        V::Arr(vs, t) => { assert forall|i: int| 0 <= i < vs.len() implies wr(#[trigger] vs[i]) by { th_good_wr(vs[i]); } }
        V::Tup(vs, ts) => { assert forall|i: int| 0 <= i < vs.len() implies wr(#[trigger] vs[i]) by { th_good_wr(vs[i]); } }
        V::Obj(o) => th_ogood_wr(o),
        _ => { }
    }
}
pub proof fn th_ogood_wr(o: O) requires ogood(o) ensures owr(o) decreases o {
    if let Some(p) = o.parent { th_ogood_wr(*p); }
    assert forall|i: int| 0 <= i < o.pairs.len() implies good_name((#[trigger] o.pairs[i]).0) && wr(o.pairs[i].1) by { assert(name_ok(o.pairs[i].0)); th_good_wr(o.pairs[i].1); }
}
/// C14: a good object, written and read back, is the same object: values, types, names, order and parent.
pub proof fn th_stable(o: O) requires ogood(o), odeep_le(o, 64) ensures sp_text(fmt_o(o, false, 0)) == Ok::<O, PErr>(o), oeq(o, o) { th_ogood_wr(o); th_round_trip(o); th_oeq_refl(o); }
/// C14: whatever was read from a text can be written and read back, and is then what it was.
pub proof fn th_text_stable(s: Seq<char>) ensures sp_text(s) matches Ok(o) ==> odeep_le(o, 64) ==> sp_text(fmt_o(o, false, 0)) == Ok::<O, PErr>(o) {
    th_text_good(s);
    if let Ok(o) = sp_text(s) { if odeep_le(o, 64) { th_stable(o); } }
}
