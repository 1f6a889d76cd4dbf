fn parse::parser::static {OBJ=1,STR=2,ARR=3,TUP=4}_SENTINEL [C16 C17]
  ens r.inner.pairs@.len() == 0 && r.inner.parent is None && sentinel_tag(r.inner.id) == $U
fn parse::parser::vx_init_{OBJ,STR,ARR,TUP}_SENTINEL [C16 C17]
  ret r
  ens[C16] r.inner.pairs@.len() == 0 && r.inner.parent is None
  ens[C17] is_generated(r.inner.id)
fn parse::parser::find_char [C13]
  ret r
  req old(stream).wf()
  ens[C13] final(stream).wf() && final(stream).src(old(stream)) && final(stream).pos() >= old(stream).pos()
  ens[C13] final(stream).pos() == skip(old(stream).text(), old(stream).pos())
  ens[C13] r == (final(stream).pos() < old(stream).text().len())
  loop 1
    inv stream.wf() && stream.src(old(stream)) && stream.pos() >= old(stream).pos()
    inv[C13] skip(old(stream).text(), stream.pos()) == skip(old(stream).text(), old(stream).pos())
    dec stream.text().len() - stream.pos()
  loop 2
    inv stream.wf() && stream.src(old(stream)) && old(stream).pos() <= vx_p < stream.text().len() && vx_p <= stream.pos() && (stream.pos() == vx_p ==> stream.text()[vx_p] == '#')
    inv[C13] line_end(stream.text(), stream.pos()) == line_end(stream.text(), vx_p)
    inv skip(old(stream).text(), vx_p) == skip(old(stream).text(), old(stream).pos()) && stream.text()[vx_p] == '#'
    dec stream.text().len() - stream.pos()
    before
      let ghost vx_p = stream.pos();
  entry
    assert(skip(stream.text(), stream.text().len() as int) == stream.text().len());
fn parse::parser::check_value_end [C18 C15]
  ret r
  req stream.wf()
  ens[C18] r is Ok == (sp_value_end(tcx(*stream), stream.pos(), cur_brace) is Ok)
  ens[C15] r matches Err(e) ==> sp_value_end(tcx(*stream), stream.pos(), cur_brace) == Err::<(), PErr>(pe(e))
fn parse::parser::unary_op_on_value [C09]
  ret r
  req stream.wf()
  ens[C09] r matches Ok(v) ==> sp_un(tcx(*stream), vw(val), op, line as int, col as int) == Ok::<V, PErr>(vw(v))
  ens[C09] r matches Err(e) ==> sp_un(tcx(*stream), vw(val), op, line as int, col as int) == Err::<V, PErr>(pe(e))
  ens[C17] r matches Ok(v) ==> op is Plus ==> v == val
fn parse::parser::binary_op_on_values [C09]
  attr #[verifier::spinoff_prover]
  ret r
  req stream.wf()
  ens[C09] r matches Ok(v) ==> sp_bin(tcx(*stream), vw(val1), vw(val2), op, line as int, col as int) == Ok::<V, PErr>(vw(v))
  ens[C17] val1 matches Value::Arr(a) ==> (val2 matches Value::Arr(b) ==> (r matches Ok(Value::Arr(x)) ==> x.inner.values@ == a.inner.values@ + b.inner.values@))
  ens[C09] r matches Err(e) ==> sp_bin(tcx(*stream), vw(val1), vw(val2), op, line as int, col as int) == Err::<V, PErr>(pe(e))
  entry
    if let Value::Int(ref i) = val1 { lemma_rat_int(i@); } if let Value::Int(ref i) = val2 { lemma_rat_int(i@); }
  before with_capacity 2
    axiom_vec_len(vec1); axiom_vec_len(vec2);
  before from_values_unchecked
    lemma_vsv(&vec); lemma_vsv(&arr1.inner.values); lemma_vsv(&arr2.inner.values); assert(vsv(vec@) =~= vsv(arr1.inner.values@) + vsv(arr2.inner.values@));
fn parse::parser::inherited_pairs [C11]
  ret r
  ens[C11] psv(r@) == all_pairs(ow(*obj))
  ens[C17] r@ == raw_all(*obj)
  dec obj
  entry
    lemma_psv(&obj.inner.pairs); reveal_with_fuel(crate::value::ow, 2); reveal_with_fuel(raw_all, 2);
  tail[C11]
    assert(psv(vx_ret@) =~= all_pairs(ow(*obj)));
fn parse::parser::parse_str_file [C16]
  ret r
  ens[C16] r matches Ok(s) ==> fs_read(path@) == Ok::<Seq<char>, Seq<char>>(s@)
  ens[C16] r matches Err(e) ==> fs_read(path@) is Err && pe(e) == (PErr { file: None, kind: K::Io(fs_read(path@)->Err_0) })
fn parse::parser::parse_str [C07 C15]
  ret r
  req old(stream).wf() && at(old(stream).text(), old(stream).pos()) == Some('"')
  ens[C07] final(stream).wf() && final(stream).src(old(stream))
  ens[C07] r matches Ok(v) ==> sp_str(tcx(*old(stream)), old(stream).pos()) == Ok::<(V, int), PErr>((vw(v), final(stream).pos())) && final(stream).pos() > old(stream).pos()
  ens[C15] r matches Err(e) ==> sp_str(tcx(*old(stream)), old(stream).pos()) == Err::<(V, int), PErr>(pe(e))
  loop 1
    inv stream.wf() && stream.src(old(stream)) && stream.pos() > old(stream).pos()
    xinv[C07] str_scan(old(stream).text(), old(stream).pos() + 1, Seq::empty(), false) == str_scan(old(stream).text(), stream.pos(), s@, escape)
    ens[C07] str_scan(old(stream).text(), old(stream).pos() + 1, Seq::empty(), false) == StrScan::Done(s@, stream.pos())
    dec stream.text().len() - stream.pos()
fn parse::parser::parse_field [C06 C15]
  attr #[verifier::spinoff_prover]
  ret r
  req old(stream).wf() && old(stream).pos() < old(stream).text().len()
  req line == ln(old(stream).text(), old(stream).pos()) && col == cl(old(stream).text(), old(stream).pos())
  ens[C06] final(stream).wf() && final(stream).src(old(stream)) && final(stream).pos() >= old(stream).pos()
  ens[C06] r matches Ok(x) ==> sp_field(tcx(*old(stream)), old(stream).pos()) == Ok::<(Seq<char>, FK, int), PErr>((x.0@, fk(x.1), final(stream).pos())) && final(stream).pos() > old(stream).pos()
  entry
    reveal_strlit("@^"); assert("@^"@.len() == 2 && "@^"@[0] == '@' && "@^"@[1] == '^');
  ens[C15] r matches Err(e) ==> sp_field(tcx(*old(stream)), old(stream).pos()) == Err::<(Seq<char>, FK, int), PErr>(pe(e))
  loop 1
    inv stream.wf() && stream.src(old(stream)) && stream.pos() >= old(stream).pos() && (first ==> field@.len() <= 1) && (stream.pos() == old(stream).pos() ==> first && field@.len() == 0)
    xinv[C06] field_scan(vx_s, vx_q, vx_f, true) == field_scan(vx_s, stream.pos(), field@, first)
    ens[C06] field_scan(vx_s, vx_q, vx_f, true) == (field@, stream.pos(), true)
    dec stream.text().len() - stream.pos()
    before
      let ghost vx_q = stream.pos(); let ghost vx_f = field@; let ghost vx_s = stream.text();
      assert(vx_f =~= if is_global { seq!['@'] } else { Seq::empty() });
fn parse::parser::parse_numeric [C08 C15]
  attr #[verifier::spinoff_prover]
  ret r
  req old(stream).wf() && old(stream).pos() < old(stream).text().len() && (is_digit_c(old(stream).text()[old(stream).pos()]) || old(stream).text()[old(stream).pos()] == '.' || old(stream).text()[old(stream).pos()] == ',')
  req line == ln(old(stream).text(), old(stream).pos()) && col == cl(old(stream).text(), old(stream).pos())
  ens[C08] final(stream).wf() && final(stream).src(old(stream))
  ens[C08] r matches Ok(v) ==> sp_num(tcx(*old(stream)), old(stream).pos()) == Ok::<(V, int), PErr>((vw(v), final(stream).pos())) && final(stream).pos() > old(stream).pos()
  ens[C15] r matches Err(e) ==> sp_num(tcx(*old(stream)), old(stream).pos()) == Err::<(V, int), PErr>(pe(e))
  loop 1
    inv stream.wf() && stream.src(old(stream)) && all_digits(s1@) && all_digits(s2@) && stream.pos() >= old(stream).pos() && (!dec ==> s2@.len() == 0)
    inv stream.pos() == old(stream).pos() ==> s1@.len() == 0 && s2@.len() == 0 && !dec && !under
    inv[C08] num_scan(old(stream).text(), old(stream).pos(), Seq::empty(), Seq::empty(), false, false) == num_scan(old(stream).text(), stream.pos(), s1@, s2@, dec, under)
    dec stream.text().len() - stream.pos()
  before trim_end_matches
    let ghost vx_b = s2@;
    lemma_literal(s1@, s2@); lemma_digits_app(s1@, s2@);
  before frac_from_whole_and_dec
    axiom_str_bytes(s2);
  after frac_from_whole_and_dec
    assert(whole@ == digits_val(s1@)); assert(s2@ == trim_end(vx_b, '0')); assert(rat(decimal@, ipow(10, dec_len as nat)) == (if s2@.len() == 0 { rat(0, ipow(10, 1)) } else { rat(digits_val(s2@), ipow(10, s2@.len())) }));
    assert(f@ == rat(digits_val(s1@ + vx_b), ipow(10, vx_b.len())));
  entry
    axiom_ascii('.'); axiom_ascii(','); axiom_ascii('_');
fn parse::parser::parse_obj_file [C16]
  ret r
  ens[C16] r matches Ok(o) ==> sp_file(path@) == Ok::<O, PErr>(ow(o))
  ens[C15] r matches Err(e) ==> sp_file(path@) == Err::<O, PErr>(pe(e))
  entry
    lemma_gv0();
fn parse::load_from_file [C16 C02 C06]
  ret r
  entry
    th_file_good(path@);
  ens[C02 C06] r matches Ok(o) ==> ogood(ow(o))
  ens[C16] r matches Ok(o) ==> sp_file(path@) == Ok::<O, PErr>(ow(o))
  ens[C15] r matches Err(e) ==> sp_file(path@) == Err::<O, PErr>(pe(e))
fn parse::load_from_str [C18 C02 C06]
  ret r
  entry
    th_text_good(contents@);
  ens[C02 C06] r matches Ok(o) ==> ogood(ow(o))
  ens[C18] r matches Ok(o) ==> sp_text(contents@) == Ok::<O, PErr>(ow(o))
  ens[C15] r matches Err(e) ==> sp_text(contents@) == Err::<O, PErr>(pe(e))
fn obj::Obj::from_file [C16 C14 C02 C06]
  ret r
  ens[C02 C06] r matches Ok(o) ==> ogood(ow(o))
  ens[C16] r matches Ok(o) ==> sp_file(path@) == Ok::<O, PErr>(ow(o))
  ens[C15] r matches Err(e) ==> e is ParseError && sp_file(path@) is Err && e->ParseError_0@ == pe_disp(sp_file(path@)->Err_0)
fn obj::<Obj as FromStr>::from_str [C18 C14]
  ret r
  link
    /// C14 for the real functions: write, read back, compare.
    pub fn vx_client_round_trip(o: &Obj) -> (r: bool) requires ogood(ow(*o)), odeep_le(ow(*o), 64) ensures r {
    let s = o.write_to_string();
    proof { th_stable(ow(*o)); }
    match $F(s.as_str()) { Ok(back) => eq__PartialEq__Obj(o, &back), Err(_) => false }
    }
  ens[C18] r matches Ok(o) ==> sp_text(s@) == Ok::<O, PErr>(ow(o))
  ens[C02 C06] r matches Ok(o) ==> ogood(ow(o))
  ens[C15] r matches Err(e) ==> e is ParseError && sp_text(s@) is Err && e->ParseError_0@ == pe_disp(sp_text(s@)->Err_0)
fn parse::parser::parse_obj_str [C18]
  ret r
  ens[C18] r matches Ok(o) ==> sp_text(contents@) == Ok::<O, PErr>(ow(o))
  ens[C15] r matches Err(e) ==> sp_text(contents@) == Err::<O, PErr>(pe(e))
  entry
    lemma_gv0();
fn parse::parser::parse_obj_file_includes [C16]
  ret r
  req depth <= 64
  req own_name(path@) matches Some(o) ==> !old(included).1@.contains(o)
  ens[C16] r is Ok ==> final(included).1@ == old(included).1@ && keeps(old(included).0@, final(included).0@)
  ens[C16] r matches Ok(o) ==> sp_load(IK::Obj, path@, old(included).1@, gv(old(included).0@), depth as int) == Ok::<(V, Map<(IK, Seq<char>), V>), PErr>((V::Obj(ow(o)), gv(final(included).0@)))
  ens[C15] r matches Err(e) ==> sp_load(IK::Obj, path@, old(included).1@, gv(old(included).0@), depth as int) == Err::<(V, Map<(IK, Seq<char>), V>), PErr>(pe(e))
  dec 70 - depth, 1int, 0int, 0int
  entry
    unfold_sp_load(IK::Obj, path@, included.1@, gv(included.0@), depth as int);
fn parse::parser::parse_obj_stream [C18 C13]
  ret r
  req ready(stream, *old(included)) && stream.pos() == 0 && depth <= 64
  ens[C16] r is Ok ==> final(included).1@ == old(included).1@ && keeps(old(included).0@, final(included).0@)
  ens[C18] r matches Ok(o) ==> sp_doc(cx(stream, *old(included)), gv(old(included).0@), depth as int) == Ok::<(O, Map<(IK, Seq<char>), V>), PErr>((ow(o), gv(final(included).0@)))
  ens[C15] r matches Err(e) ==> sp_doc(cx(stream, *old(included)), gv(old(included).0@), depth as int) == Err::<(O, Map<(IK, Seq<char>), V>), PErr>(pe(e))
  dec 70 - depth, 0int, stream.text().len(), 6int
  loop 1
    inv ready(stream, *included) && stream.src(&vx_s0) && stream.pos() < stream.text().len() && included.1@ == old(included).1@ && keeps(old(included).0@, included.0@)
    xinv[C18] sp_fields(vx_cx, stt(stream, globals, *included), psv(obj_pairs@), par(parent), depth as int, None) == vx_r
    ens[C18] vx_r == Ok::<(O, St), PErr>((O { pairs: psv(obj_pairs@), parent: match par(parent) { Some(o) => Some(Box::new(o)), None => None }, tag: 0 }, stt(stream, globals, *included)))
    ens[C16] included.1@ == old(included).1@ && keeps(old(included).0@, included.0@)
    dec stream.text().len() - stream.pos()
    before
      let ghost vx_s0 = stream; let ghost vx_cx = cx(vx_s0, *old(included)); let ghost vx_r = sp_fields(vx_cx, stt(stream, globals, *included), psv(obj_pairs@), par(parent), depth as int, None);
    begin
      unfold_sp_fields(vx_cx, stt(stream, globals, *included), psv(obj_pairs@), par(parent), depth as int, None);
  entry
    unfold_sp_doc(cx(stream, *included), gv(included.0@), depth as int); lemma_gv0(); lemma_psv0();
fn parse::parser::parse_obj [C05 C12 C13]
  ret r
  req ready(*old(stream), *old(included)) && at(old(stream).text(), old(stream).pos()) == Some('{') && depth <= 66
  ens r is Ok ==> step(*old(stream), *old(included), *final(stream), *final(included))
  ens[C10] r is Ok ==> keepsg(old(globals)@, final(globals)@)
  ens[C05] r matches Ok(v) ==> sp_obj(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), depth as int) == Ok::<(V, St), PErr>((vw(v), stt(*final(stream), *final(globals), *final(included))))
  ens[C15] r matches Err(e) ==> sp_obj(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), depth as int) == Err::<(V, St), PErr>(pe(e))
  dec 70 - depth, 0int, old(stream).text().len() - old(stream).pos(), 0int
  loop 1
    inv ready(*stream, *included) && stream.src(old(stream)) && stream.pos() < stream.text().len() && stream.pos() > old(stream).pos() && included.1@ == old(included).1@ && keeps(old(included).0@, included.0@) && keepsg(old(globals)@, globals@)
    xinv[C05] sp_fields(vx_cx, stt(*stream, *globals, *included), psv(obj_pairs@), par(parent), depth as int, Some('}')) == vx_r
    ens[C05] vx_r == Ok::<(O, St), PErr>((O { pairs: psv(obj_pairs@), parent: match par(parent) { Some(o) => Some(Box::new(o)), None => None }, tag: 0 }, stt(*stream, *globals, *included)))
    ens step(*old(stream), *old(included), *stream, *included) && keepsg(old(globals)@, globals@)
    dec stream.text().len() - stream.pos()
    before
      let ghost vx_cx = cx(*old(stream), *old(included)); let ghost vx_r = sp_fields(vx_cx, stt(*stream, *globals, *included), psv(obj_pairs@), par(parent), depth as int, Some('}'));
    begin
      unfold_sp_fields(vx_cx, stt(*stream, *globals, *included), psv(obj_pairs@), par(parent), depth as int, Some('}'));
  entry
    unfold_sp_obj(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), depth as int); lemma_psv0();
fn parse::parser::parse_field_value_pair [C05 C10 C13]
  attr #[verifier::spinoff_prover]
  ret r
  req ready(*old(stream), *old(included)) && old(stream).pos() < old(stream).text().len() && depth <= 64
  ens r is Ok ==> step(*old(stream), *old(included), *final(stream), *final(included)) && (r->Ok_0 ==> final(stream).pos() < final(stream).text().len())
  ens[C10] r is Ok ==> keepsg(old(globals)@, final(globals)@)
  ens[C05] r matches Ok(b) ==> sp_pair(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(old(obj_pairs)@), par(*old(parent)), depth as int, cur_brace) == Ok::<(bool, Seq<(Seq<char>, V)>, Option<O>, St), PErr>((b, psv(final(obj_pairs)@), par(*final(parent)), stt(*final(stream), *final(globals), *final(included))))
  ens[C15] r matches Err(e) ==> sp_pair(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(old(obj_pairs)@), par(*old(parent)), depth as int, cur_brace) == Err::<(bool, Seq<(Seq<char>, V)>, Option<O>, St), PErr>(pe(e))
  ens[C17] r is Ok ==> pair_inst(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), old(obj_pairs)@, old(globals)@, *old(parent), depth as int, cur_brace, final(obj_pairs)@, final(globals)@, *final(parent), final(included).0@)
  dec 70 - depth, 0int, old(stream).text().len() - old(stream).pos(), 4int
  iter 1
    pred $x.0@ == field_name@
    after
      assert(vx_r1 == has_field(psv(obj_pairs@), field_name@)) by {
      if vx_r1 { let j = choose|j: int| #![trigger vx_a1@[j]] 0 <= j < vx_i1 && vx_a1@[j].0@ == field_name@; assert(psv(obj_pairs@)[j].0 == field_name@); }
      else { assert forall|i: int| 0 <= i < psv(obj_pairs@).len() implies (#[trigger] psv(obj_pairs@)[i]).0 != field_name@ by { assert(vx_a1@[i].0@ != field_name@); } } }
  before insert
    assert(sp_full(vx_c, vx_s1, psv(vx_o), depth as int, cur_brace) == Ok::<(V, St), PErr>((vw(value), stt(*stream, *globals, *included)))); assert(val_inst(vx_c, vx_s1, vx_o, vx_g, included.0@, depth as int, cur_brace, value, stream.pos()));
    assert(gv(globals@.insert(field_name@, value)) =~= gv(globals@).insert(field_name@, vw(value)));
  before push
    assert(sp_full(vx_c, vx_s1, psv(vx_o), depth as int, cur_brace) == Ok::<(V, St), PErr>((vw(value), stt(*stream, *globals, *included)))); assert(val_inst(vx_c, vx_s1, vx_o, vx_g, included.0@, depth as int, cur_brace, value, stream.pos())); assert(obj_pairs@.push(Pair(field_name, value)).drop_last() =~= vx_o);
    assert(psv(obj_pairs@.push(Pair(field_name, value))) =~= psv(obj_pairs@).push((field_name@, vw(value))));
  entry
    let ghost vx_c = cx(*old(stream), *old(included)); let ghost vx_o = old(obj_pairs)@; let ghost vx_g = old(globals)@; let ghost vx_s1 = St { p: skip(vx_c.s, sp_field(vx_c, old(stream).pos())->Ok_0.2), ..stt(*old(stream), *old(globals), *old(included)) };
    unfold_sp_pair(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(old(obj_pairs)@), par(*old(parent)), depth as int, cur_brace);
fn parse::parser::parse_arr_file [C16]
  ret r
  req depth <= 64
  req own_name(path@) matches Some(o) ==> !old(included).1@.contains(o)
  ens[C16] r is Ok ==> final(included).1@ == old(included).1@ && keeps(old(included).0@, final(included).0@)
  ens[C16] r matches Ok(o) ==> sp_load(IK::Arr, path@, old(included).1@, gv(old(included).0@), depth as int) == Ok::<(V, Map<(IK, Seq<char>), V>), PErr>((vw(Value::Arr(o)), gv(final(included).0@)))
  ens[C15] r matches Err(e) ==> sp_load(IK::Arr, path@, old(included).1@, gv(old(included).0@), depth as int) == Err::<(V, Map<(IK, Seq<char>), V>), PErr>(pe(e))
  dec 70 - depth, 1int, 0int, 0int
  loop 1
    inv ready(stream, *included) && stream.src(&vx_s0) && included.1@ == old(included).1@ && keeps(old(included).0@, included.0@)
    inv has_any == crate::sp::has_any(ty(tcur))
    xinv[C16] sp_elems(vx_cx, stt(stream, globals, *included), psv(Seq::empty()), depth as int, None, vsv(vec@), Some(ty(tcur))) == vx_r
    ens[C16] vx_r == Ok::<(Seq<V>, Option<T>, St), PErr>((vsv(vec@), Some(ty(tcur)), stt(stream, globals, *included)))
    ens[C16] included.1@ == old(included).1@ && keeps(old(included).0@, included.0@)
    dec stream.text().len() - stream.pos()
    before
      let ghost vx_s0 = stream; let ghost vx_cx = cx(vx_s0, *old(included)); let ghost vx_r = sp_elems(vx_cx, stt(stream, globals, *included), psv(Seq::empty()), depth as int, None, vsv(vec@), Some(ty(tcur)));
      unfold_sp_seq_doc(vx_cx, gv(old(included).0@), depth as int, Some(T::Any)); assert(obj_pairs@ =~= Seq::empty()); assert(vsv(vec@) =~= Seq::<V>::empty());
      assert(psv(obj_pairs@) =~= psv(Seq::empty()));
    begin
      let ghost vx_v0 = vec@;
      unfold_sp_elems(vx_cx, stt(stream, globals, *included), psv(Seq::empty()), depth as int, None, vsv(vec@), Some(ty(tcur)));
    end
      assert(vsv(vec@) =~= vsv(vx_v0).push(vw(vec@.last())));
  after get_type
    lemma_join_noany(ty(tcur), ty(tnew));
  entry
    unfold_sp_load(IK::Arr, path@, included.1@, gv(included.0@), depth as int); lemma_gv0(); lemma_psv0(); lemma_vsv0();
fn parse::parser::parse_tup_file [C16]
  ret r
  req depth <= 64
  req own_name(path@) matches Some(o) ==> !old(included).1@.contains(o)
  ens[C16] r is Ok ==> final(included).1@ == old(included).1@ && keeps(old(included).0@, final(included).0@)
  ens[C16] r matches Ok(o) ==> sp_load(IK::Tup, path@, old(included).1@, gv(old(included).0@), depth as int) == Ok::<(V, Map<(IK, Seq<char>), V>), PErr>((vw(Value::Tup(o)), gv(final(included).0@)))
  ens[C15] r matches Err(e) ==> sp_load(IK::Tup, path@, old(included).1@, gv(old(included).0@), depth as int) == Err::<(V, Map<(IK, Seq<char>), V>), PErr>(pe(e))
  dec 70 - depth, 1int, 0int, 0int
  loop 1
    inv ready(stream, *included) && stream.src(&vx_s0) && included.1@ == old(included).1@ && keeps(old(included).0@, included.0@)
    xinv[C16] sp_elems(vx_cx, stt(stream, globals, *included), psv(Seq::empty()), depth as int, None, vsv(vec@), None) == vx_r
    ens[C16] vx_r == Ok::<(Seq<V>, Option<T>, St), PErr>((vsv(vec@), None, stt(stream, globals, *included)))
    ens[C16] included.1@ == old(included).1@ && keeps(old(included).0@, included.0@)
    dec stream.text().len() - stream.pos()
    before
      let ghost vx_s0 = stream; let ghost vx_cx = cx(vx_s0, *old(included)); let ghost vx_r = sp_elems(vx_cx, stt(stream, globals, *included), psv(Seq::empty()), depth as int, None, vsv(vec@), None);
      unfold_sp_seq_doc(vx_cx, gv(old(included).0@), depth as int, None); assert(obj_pairs@ =~= Seq::empty()); assert(vsv(vec@) =~= Seq::<V>::empty());
      assert(psv(obj_pairs@) =~= psv(Seq::empty()));
    begin
      let ghost vx_v0 = vec@;
      unfold_sp_elems(vx_cx, stt(stream, globals, *included), psv(Seq::empty()), depth as int, None, vsv(vec@), None);
    end
      assert(vsv(vec@) =~= vsv(vx_v0).push(vw(vec@.last())));
  entry
    unfold_sp_load(IK::Tup, path@, included.1@, gv(included.0@), depth as int); lemma_gv0(); lemma_psv0(); lemma_vsv0();
fn parse::parser::parse_arr [C02 C12 C13]
  attr #[verifier::spinoff_prover]
  ret r
  req ready(*old(stream), *old(included)) && at(old(stream).text(), old(stream).pos()) == Some('[') && depth <= 66
  ens r is Ok ==> step(*old(stream), *old(included), *final(stream), *final(included))
  ens[C10] r is Ok ==> keepsg(old(globals)@, final(globals)@)
  ens[C02] r matches Ok(v) ==> sp_arr(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int) == Ok::<(V, St), PErr>((vw(v), stt(*final(stream), *final(globals), *final(included))))
  ens[C15] r matches Err(e) ==> sp_arr(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int) == Err::<(V, St), PErr>(pe(e))
  ens[C17] r matches Ok(v) ==> (v matches Value::Arr(a) && el_inst(cx(*old(stream), *old(included)), St { p: old(stream).pos() + 1, ..stt(*old(stream), *old(globals), *old(included)) }, obj_pairs@, final(globals)@, final(included).0@, depth as int, Some(']'), a.inner.values@))
  dec 70 - depth, 0int, old(stream).text().len() - old(stream).pos(), 0int
  loop 1
    inv ready(*stream, *included) && stream.src(old(stream)) && stream.pos() > old(stream).pos() && included.1@ == old(included).1@ && keeps(old(included).0@, included.0@) && keepsg(old(globals)@, globals@)
    inv has_any == crate::sp::has_any(ty(tcur))
    inv[C17] stt(*stream, *globals, *included) == el_st(vx_cx, vx_s1, psv(obj_pairs@), depth as int, Some(']'), vec@.len() as int)
    inv[C17] el_inst(vx_cx, vx_s1, obj_pairs@, globals@, included.0@, depth as int, Some(']'), vec@)
    xinv[C02] sp_elems(vx_cx, stt(*stream, *globals, *included), psv(obj_pairs@), depth as int, Some(']'), vsv(vec@), Some(ty(tcur))) == vx_r
    ens[C17] el_inst(vx_cx, vx_s1, obj_pairs@, globals@, included.0@, depth as int, Some(']'), vec@)
    ens[C02] vx_r == Ok::<(Seq<V>, Option<T>, St), PErr>((vsv(vec@), Some(ty(tcur)), stt(*stream, *globals, *included)))
    ens step(*old(stream), *old(included), *stream, *included) && keepsg(old(globals)@, globals@)
    dec stream.text().len() - stream.pos()
    before
      let ghost vx_cx = cx(*old(stream), *old(included)); let ghost vx_s1 = stt(*stream, *globals, *included); let ghost vx_r = sp_elems(vx_cx, stt(*stream, *globals, *included), psv(obj_pairs@), depth as int, Some(']'), vsv(vec@), Some(ty(tcur)));
      assert(vsv(vec@) =~= Seq::<V>::empty());
    begin
      let ghost vx_v0 = vec@; let ghost vx_g0 = globals@; let ghost vx_m0 = included.0@;
      unfold_sp_elems(vx_cx, stt(*stream, *globals, *included), psv(obj_pairs@), depth as int, Some(']'), vsv(vec@), Some(ty(tcur)));
    end
      assert(vsv(vec@) =~= vsv(vx_v0).push(vw(vec@.last())));
      assert(vec@ =~= vx_v0.push(vec@.last())); assert(el_one(vx_cx, vx_s1, obj_pairs@, vx_g0, included.0@, depth as int, Some(']'), vx_v0.len() as int, vec@.last()));
      lemma_el_push(vx_cx, vx_s1, obj_pairs@, vx_g0, globals@, vx_m0, included.0@, depth as int, Some(']'), vx_v0, vec@.last());
  after get_type
    lemma_join_noany(ty(tcur), ty(tnew));
  entry
    unfold_sp_arr(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int); lemma_vsv0();
fn parse::parser::parse_tup [C12 C13]
  ret r
  req ready(*old(stream), *old(included)) && at(old(stream).text(), old(stream).pos()) == Some('(') && depth <= 66
  ens r is Ok ==> step(*old(stream), *old(included), *final(stream), *final(included))
  ens[C10] r is Ok ==> keepsg(old(globals)@, final(globals)@)
  ens[C02] r matches Ok(v) ==> sp_tup(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int) == Ok::<(V, St), PErr>((vw(v), stt(*final(stream), *final(globals), *final(included))))
  ens[C15] r matches Err(e) ==> sp_tup(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int) == Err::<(V, St), PErr>(pe(e))
  ens[C17] r matches Ok(v) ==> (v matches Value::Tup(a) && el_inst(cx(*old(stream), *old(included)), St { p: old(stream).pos() + 1, ..stt(*old(stream), *old(globals), *old(included)) }, obj_pairs@, final(globals)@, final(included).0@, depth as int, Some(')'), a.inner.values@))
  dec 70 - depth, 0int, old(stream).text().len() - old(stream).pos(), 0int
  loop 1
    inv ready(*stream, *included) && stream.src(old(stream)) && stream.pos() > old(stream).pos() && included.1@ == old(included).1@ && keeps(old(included).0@, included.0@) && keepsg(old(globals)@, globals@)
    inv[C17] stt(*stream, *globals, *included) == el_st(vx_cx, vx_s1, psv(obj_pairs@), depth as int, Some(')'), vec@.len() as int)
    inv[C17] el_inst(vx_cx, vx_s1, obj_pairs@, globals@, included.0@, depth as int, Some(')'), vec@)
    xinv[C02] sp_elems(vx_cx, stt(*stream, *globals, *included), psv(obj_pairs@), depth as int, Some(')'), vsv(vec@), None::<T>) == vx_r
    ens[C17] el_inst(vx_cx, vx_s1, obj_pairs@, globals@, included.0@, depth as int, Some(')'), vec@)
    ens[C02] vx_r == Ok::<(Seq<V>, Option<T>, St), PErr>((vsv(vec@), None::<T>, stt(*stream, *globals, *included)))
    ens step(*old(stream), *old(included), *stream, *included) && keepsg(old(globals)@, globals@)
    dec stream.text().len() - stream.pos()
    before
      let ghost vx_cx = cx(*old(stream), *old(included)); let ghost vx_s1 = stt(*stream, *globals, *included); let ghost vx_r = sp_elems(vx_cx, stt(*stream, *globals, *included), psv(obj_pairs@), depth as int, Some(')'), vsv(vec@), None::<T>);
      assert(vsv(vec@) =~= Seq::<V>::empty());
    begin
      let ghost vx_v0 = vec@; let ghost vx_g0 = globals@; let ghost vx_m0 = included.0@;
      unfold_sp_elems(vx_cx, stt(*stream, *globals, *included), psv(obj_pairs@), depth as int, Some(')'), vsv(vec@), None);
    end
      assert(vsv(vec@) =~= vsv(vx_v0).push(vw(vec@.last())));
      assert(vec@ =~= vx_v0.push(vec@.last())); assert(el_one(vx_cx, vx_s1, obj_pairs@, vx_g0, included.0@, depth as int, Some(')'), vx_v0.len() as int, vec@.last()));
      lemma_el_push(vx_cx, vx_s1, obj_pairs@, vx_g0, globals@, vx_m0, included.0@, depth as int, Some(')'), vx_v0, vec@.last());
  entry
    unfold_sp_tup(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int); lemma_vsv0();
fn parse::parser::parse_value [C09 C18]
  attr #[verifier::spinoff_prover]
  ret r
  req ready(*old(stream), *old(included)) && old(stream).pos() < old(stream).text().len() && depth <= 65
  req line == ln(old(stream).text(), old(stream).pos()) && col == cl(old(stream).text(), old(stream).pos())
  ens r is Ok ==> step(*old(stream), *old(included), *final(stream), *final(included))
  ens[C10] r is Ok ==> keepsg(old(globals)@, final(globals)@)
  ens[C09] r matches Ok(v) ==> is_first ==> sp_full(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int, cur_brace) == Ok::<(V, St), PErr>((vw(v), stt(*final(stream), *final(globals), *final(included))))
  ens[C18] r matches Ok(v) ==> !is_first ==> sp_prim(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int, cur_brace) == Ok::<(V, St), PErr>((vw(v), stt(*final(stream), *final(globals), *final(included))))
  ens[C15] r matches Err(e) ==> is_first ==> sp_full(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int, cur_brace) == Err::<(V, St), PErr>(pe(e))
  ens[C15] r matches Err(e) ==> !is_first ==> sp_prim(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int, cur_brace) == Err::<(V, St), PErr>(pe(e))
  ens[C17] r matches Ok(v) ==> val_inst(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), obj_pairs@, old(globals)@, final(included).0@, depth as int, cur_brace, v, final(stream).pos())
  dec 70 - depth, 0int, old(stream).text().len() - old(stream).pos(), 3int
  entry
    let ghost vx_cx = cx(*old(stream), *old(included)); let ghost vx_pv = sp_prim(vx_cx, stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int, cur_brace);
    axiom_ascii(stream.text()[stream.pos()]); unfold_sp_full(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int, cur_brace); unfold_sp_prim(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int, cur_brace);
  loop 1
    inv ready(*stream, *included) && stream.src(old(stream)) && stream.pos() > old(stream).pos() && included.1@ == old(included).1@ && keeps(old(included).0@, included.0@) && keepsg(old(globals)@, globals@)
    inv val_deque@.len() == op_deque@.len() + 1
    inv[C17] stream.pos() >= vx_p1 && (stream.pos() == vx_p1 ==> val_deque@.len() == 1 && val_deque@[0].0 == vx_res && included.0@ == vx_m1)
    xinv[C09] sp_chain(vx_cx, stt(*stream, *globals, *included), psv(obj_pairs@), depth as int, cur_brace, dv(val_deque@), op_deque@) == vx_r
    ens[C09] vx_r == Ok::<(Seq<(V, int, int)>, Seq<BinaryOp>, St), PErr>((dv(val_deque@), op_deque@, stt(*stream, *globals, *included)))
    ens step(*old(stream), *old(included), *stream, *included) && keepsg(old(globals)@, globals@) && val_deque@.len() == op_deque@.len() + 1
    dec stream.text().len() - stream.pos()
    before
      let ghost vx_p1 = stream.pos(); let ghost vx_res = res; let ghost vx_m1 = included.0@;
      let ghost vx_r = sp_chain(vx_cx, stt(*stream, *globals, *included), psv(obj_pairs@), depth as int, cur_brace, dv(val_deque@), op_deque@);
      assert(dv(val_deque@) =~= seq![(vw(res), line as int, col as int)]); assert(op_deque@ =~= Seq::<BinaryOp>::empty());
    begin
      let ghost vx_v0 = val_deque@; let ghost vx_o0 = op_deque@;
      lemma_dv(vx_v0);
      unfold_sp_chain(vx_cx, stt(*stream, *globals, *included), psv(obj_pairs@), depth as int, cur_brace, dv(val_deque@), op_deque@);
  loop 2
    inv val_deque@.len() == op_deque@.len()
    inv[C09] sp_fold(vx_cx, vw(val1), dv(val_deque@), op_deque@) == vx_fr
    inv[C17] op_deque@.len() <= vx_n2 && (vx_n2 == 0 ==> val1 == vx_val1)
    dec op_deque@.len()
    before
      let ghost vx_n2 = op_deque@.len(); let ghost vx_val1 = val1;
      let ghost vx_fr = sp_fold(vx_cx, vw(val1), dv(val_deque@), op_deque@);
    begin
      let ghost vx_w0 = val_deque@;
      lemma_dv(vx_w0);
  after check_value_end
    lemma_dv(val_deque@);
fn parse::parser::parse_unary_op [C09 C12]
  ret r
  req ready(*old(stream), *old(included)) && old(stream).pos() < old(stream).text().len() && depth <= 65
  req old(stream).text()[old(stream).pos()] == (if op is Plus { '+' } else { '-' })
  ens r is Ok ==> step(*old(stream), *old(included), *final(stream), *final(included))
  ens[C10] r is Ok ==> keepsg(old(globals)@, final(globals)@)
  ens[C09] r matches Ok(v) ==> sp_unary(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int, cur_brace, op) == Ok::<(V, St), PErr>((vw(v), stt(*final(stream), *final(globals), *final(included))))
  ens[C15] r matches Err(e) ==> sp_unary(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int, cur_brace, op) == Err::<(V, St), PErr>(pe(e))
  dec 70 - depth, 0int, old(stream).text().len() - old(stream).pos(), 0int
  entry
    unfold_sp_unary(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int, cur_brace, op);
fn parse::parser::parse_variable [C10 C11 C12]
  attr #[verifier::spinoff_prover]
  ret r
  req ready(*old(stream), *old(included)) && old(stream).pos() < old(stream).text().len() && depth <= 65 && var_start(old(stream).text()[old(stream).pos()])
  req line == ln(old(stream).text(), old(stream).pos()) && col == cl(old(stream).text(), old(stream).pos())
  ens r is Ok ==> step(*old(stream), *old(included), *final(stream), *final(included))
  ens[C10] r is Ok ==> keepsg(old(globals)@, final(globals)@)
  ens[C10] r matches Ok(v) ==> sp_var(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int, cur_brace, after_dot) == Ok::<(V, St), PErr>((vw(v), stt(*final(stream), *final(globals), *final(included))))
  ens[C15] r matches Err(e) ==> sp_var(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int, cur_brace, after_dot) == Err::<(V, St), PErr>(pe(e))
  ens[C17] r matches Ok(v) ==> var_inst(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), obj_pairs@, old(globals)@, depth as int, cur_brace, v)
  dec 70 - depth, 0int, old(stream).text().len() - old(stream).pos(), 0int
  loop 1
    inv ready(*stream, *included) && stream.src(old(stream)) && stream.pos() >= old(stream).pos()
    inv !dot && !dot_global && *included == *old(included) && *globals == *old(globals)
    ens stream.pos() > old(stream).pos() && (dot ==> stream.pos() < stream.text().len() && (dot_global || var_start(stream.text()[stream.pos()])))
    xinv[C10] var_scan(stream.text(), stream.pos(), var@) == vx_r
    ens[C10] vx_r == VarScan::Done(var@, stream.pos(), dot, dot_global)
    dec stream.text().len() - stream.pos()
    before
      let ghost vx_r = var_scan(stream.text(), stream.pos(), var@);
      assert(var@ =~= if is_global { seq!['@'] } else { Seq::empty() });
  iter 1
    pred $x.0@ == var@
    after
      if vx_r1 is Some { lemma_psfind_at(obj_pairs@, var@, 0, vx_i1 - 1); lemma_rfind_at(obj_pairs@, var@, 0, vx_i1 - 1); } else { lemma_psfind_none(obj_pairs@, var@, 0); }
  entry
    lemma_tokens(); axiom_ascii(stream.text()[stream.pos()]);
    unfold_sp_var(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int, cur_brace, after_dot);
  before parse_variable 1
    lemma_psv(&obj.inner.pairs); lemma_all_pairs(&obj);
fn parse::parser::parse_include [C16 C12]
  attr #[verifier::spinoff_prover]
  ret r
  req ready(*old(stream), *old(included)) && at(old(stream).text(), old(stream).pos()) == Some('<') && depth <= 66
  ens r is Ok ==> step(*old(stream), *old(included), *final(stream), *final(included))
  ens[C10] r is Ok ==> keepsg(old(globals)@, final(globals)@)
  ens[C16] r matches Ok(v) ==> sp_include(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int) == Ok::<(V, St), PErr>((vw(v), stt(*final(stream), *final(globals), *final(included))))
  ens[C15] r matches Err(e) ==> sp_include(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int) == Err::<(V, St), PErr>(pe(e))
  ens[C17] r matches Ok(v) ==> inc_inst(cx(*old(stream), *old(included)), stt(*old(stream), *old(globals), *old(included)), psv(obj_pairs@), depth as int, final(included).0@, v)
  dec 70 - depth, 4int, old(stream).text().len() - old(stream).pos(), 0int
  entry
    let ghost vx_cx = cx(*old(stream), *old(included)); let ghost vx_s0 = stt(*old(stream), *old(globals), *old(included)); let ghost vx_ps = psv(obj_pairs@); let ghost vx_q = skip(vx_cx.s, vx_s0.p + 1);
    let ghost vx_f1 = sp_full(vx_cx, St { p: vx_q, ..vx_s0 }, vx_ps, depth as int, Some('>')); let ghost vx_v1 = vx_f1->Ok_0.0; let ghost vx_s1 = vx_f1->Ok_0.1; let ghost vx_q1 = skip(vx_cx.s, vx_s1.p);
    let ghost vx_f2 = sp_full(vx_cx, St { p: vx_q1, ..vx_s1 }, vx_ps, depth as int, Some('>')); let ghost vx_v2 = vx_f2->Ok_0.0; let ghost vx_s2 = vx_f2->Ok_0.1; let ghost vx_q2 = skip(vx_cx.s, vx_s2.p); let ghost vx_ik = inc_kind(vx_v1)->Some_0;
    unfold_sp_include(vx_cx, vx_s0, vx_ps, depth as int);
    unfold_sp_inc_close(vx_cx, vx_s1, IK::Obj, vx_v1, depth as int, vx_q); unfold_sp_inc_close(vx_cx, vx_s2, vx_ik, vx_v2, depth as int, vx_q1);
    unfold_sp_resolve(vx_cx, St { p: vx_q1 + 1, ..vx_s1 }, IK::Obj, vx_v1->Str_0, depth as int, ln(vx_cx.s, vx_q), cl(vx_cx.s, vx_q));
    unfold_sp_resolve(vx_cx, St { p: vx_q2 + 1, ..vx_s2 }, vx_ik, vx_v2->Str_0, depth as int, ln(vx_cx.s, vx_q1), cl(vx_cx.s, vx_q1));
    lemma_skip_at(vx_cx.s, vx_s1.p); lemma_skip_at(vx_cx.s, vx_s2.p); lemma_sentinels(); lemma_tags(); axiom_ascii('\n');
    match stream.fname() { Some(f) => { axiom_file_has_parent(f); } None => {} }
  before canonicalize 1
    axiom_path_text(path@);
  before parse_str_file
    unfold_sp_load(IK::Str, path_str@, included.1@, gv(included.0@), depth as int);
  before insert 2
    assert(gv(included.0@.insert(key@, value)) =~= gv(included.0@).insert(key@, vw(value)));
  tail
    assert(included.1@ =~= old(included).1@);
