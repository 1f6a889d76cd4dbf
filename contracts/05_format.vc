fn parse::format::indent [C14]
  ret r
  ens[C14] r@ == rep(" "@, amount as nat)
fn parse::format::get_char_map [C07 C14]
  ret r
  ens[C07] r matches Some(s) ==> s@ == esc_c(ch)
  ens[C07] r is None ==> esc_c(ch) == seq![ch]
fn parse::format::replace_all [C07 C14]
  ret r
  ens[C07] r@ == esc(s@)
  loop 1
    inv vx_c1@ == s@
    inv[C07] string@ == esc(s@.take(vx_i1 as int))
    begin
      assert(s@.take(vx_i1 as int).drop_last() =~= s@.take(vx_i1 - 1));
      assert(string@ + seq![ch] =~= string@.push(ch));
    after
      assert(s@.take(s@.len() as int) =~= s@);
fn parse::format::<BigRational as Format>::format [C14]
  link pub fn vx_link__$F(x: &BigRational, full: bool, n: usize) -> (r: String) requires x.fmt_pre(full, n as int) ensures r@ == x.fmt_spec(full, n as int) { $F(x, full, n) }
  ret r
  ens[C14] r@ == fmt_q(vx_self@)
fn parse::format::<String as Format>::format [C07 C14]
  link pub fn vx_link__$F(x: &String, full: bool, n: usize) -> (r: String) requires x.fmt_pre(full, n as int) ensures r@ == x.fmt_spec(full, n as int) { $F(x, full, n) }
  ret r
  ens[C14] r@ == fmt_s(vx_self@)
fn parse::format::<Value as Format>::format [C14]
  link pub fn vx_link__$F(x: &Value, full: bool, n: usize) -> (r: String) requires x.fmt_pre(full, n as int) ensures r@ == x.fmt_spec(full, n as int) { $F(x, full, n) }
  ret r
  req vx_self.fmt_pre(true, indent_amt as int)
  ens[C14] r@ == fmt_v(vw(*vx_self), indent_amt as int)
fn parse::format::<Arr as Format>::format [C14]
  link pub fn vx_link__$F(x: &Arr, full: bool, n: usize) -> (r: String) requires x.fmt_pre(full, n as int) ensures r@ == x.fmt_spec(full, n as int) { $F(x, full, n) }
  ret r
  req vx_self.fmt_pre(full, indent_amt as int)
  ens[C14] r@ == fmt_a(vws(vx_self.inner.values), full, indent_amt as int)
  inline with_each arr::Arr::with_each
  entry
    lemma_vws(&vx_self.inner.values); assert(indent_amt <= 0x4000_0000_0000_0000) by { lemma_deep_pos(vw(Value::Arr(*vx_self)), room(indent_amt as int)); } assert(deep_le(vw(Value::Arr(*vx_self)), room(indent_amt as int))); assert(vw(Value::Arr(*vx_self))->Arr_0 == vws(vx_self.inner.values));
    if vx_self.inner.values@.len() > 0 { assert(vws(vx_self.inner.values)[0] == vw(vx_self.inner.values@[0])); lemma_deep_mono(vw(vx_self.inner.values@[0]), room(indent_amt as int) - 1, room(indent_amt as int)); }
  loop 1
    inv vx_c1@ == vx_self.inner.values@ && vx_c1@.len() > 1
    inv[C14] s@ == (if full { "[\n"@ } else { Seq::empty() }) + fmt_lines(vws(vx_self.inner.values), vx_i1 as int, indent_amt as int)
    before
      assert(s@ =~= (if full { "[\n"@ } else { Seq::empty() }) + fmt_lines(vws(vx_self.inner.values), 0, indent_amt as int));
    begin
      assert(vws(vx_self.inner.values)[vx_i1 - 1] == vw(vx_self.inner.values@[vx_i1 - 1]));
      assert(deep_le(vw(vx_self.inner.values@[vx_i1 - 1]), room(indent_amt as int) - 1));
    end
      assert(s@ =~= (if full { "[\n"@ } else { Seq::empty() }) + fmt_lines(vws(vx_self.inner.values), vx_i1 as int, indent_amt as int));
fn parse::format::<Tup as Format>::format [C14]
  link pub fn vx_link__$F(x: &Tup, full: bool, n: usize) -> (r: String) requires x.fmt_pre(full, n as int) ensures r@ == x.fmt_spec(full, n as int) { $F(x, full, n) }
  ret r
  req vx_self.fmt_pre(full, indent_amt as int)
  ens[C14] r@ == fmt_t(vws(vx_self.inner.values), full, indent_amt as int)
  inline with_each tup::Tup::with_each
  entry
    lemma_vws(&vx_self.inner.values); assert(indent_amt <= 0x4000_0000_0000_0000) by { lemma_deep_pos(vw(Value::Tup(*vx_self)), room(indent_amt as int)); } assert(deep_le(vw(Value::Tup(*vx_self)), room(indent_amt as int))); assert(vw(Value::Tup(*vx_self))->Tup_0 == vws(vx_self.inner.values));
    if vx_self.inner.values@.len() > 0 { assert(vws(vx_self.inner.values)[0] == vw(vx_self.inner.values@[0])); lemma_deep_mono(vw(vx_self.inner.values@[0]), room(indent_amt as int) - 1, room(indent_amt as int)); }
  loop 1
    inv vx_c1@ == vx_self.inner.values@ && vx_c1@.len() > 1
    inv[C14] s@ == (if full { "(\n"@ } else { Seq::empty() }) + fmt_lines(vws(vx_self.inner.values), vx_i1 as int, indent_amt as int)
    before
      assert(s@ =~= (if full { "(\n"@ } else { Seq::empty() }) + fmt_lines(vws(vx_self.inner.values), 0, indent_amt as int));
    begin
      assert(vws(vx_self.inner.values)[vx_i1 - 1] == vw(vx_self.inner.values@[vx_i1 - 1]));
      assert(deep_le(vw(vx_self.inner.values@[vx_i1 - 1]), room(indent_amt as int) - 1));
    end
      assert(s@ =~= (if full { "(\n"@ } else { Seq::empty() }) + fmt_lines(vws(vx_self.inner.values), vx_i1 as int, indent_amt as int));
fn parse::format::<Obj as Format>::format [C14]
  link pub fn vx_link__$F(x: &Obj, full: bool, n: usize) -> (r: String) requires x.fmt_pre(full, n as int) ensures r@ == x.fmt_spec(full, n as int) { $F(x, full, n) }
  ret r
  req vx_self.fmt_pre(full, indent_amt as int)
  ens[C14] r@ == fmt_o(ow(*vx_self), full, indent_amt as int)
  inline with_each obj::Obj::with_each
  entry
    lemma_pws(&vx_self.inner.pairs); assert(indent_amt <= 0x4000_0000_0000_0000) by { lemma_deep_pos(vw(Value::Obj(*vx_self)), room(indent_amt as int)); } assert(odeep_le(ow(*vx_self), room(indent_amt as int)));
    reveal_with_fuel(crate::value::ow, 2);
    match &vx_self.inner.parent { Some(p) => { assert(odeep_le(ow(*p), room(indent_amt as int) - 1)); } None => {} }
  loop 1
    inv vx_c1@ == vx_self.inner.pairs@
    inv[C14] s@ == fmt_head(ow(*vx_self), full, indent_amt as int) + fmt_fields(pws(vx_self.inner.pairs), vx_i1 as int, indent_amt as int)
    before
      assert(s@ =~= fmt_head(ow(*vx_self), full, indent_amt as int) + fmt_fields(pws(vx_self.inner.pairs), 0, indent_amt as int));
    begin
      assert(pws(vx_self.inner.pairs)[vx_i1 - 1] == (vx_self.inner.pairs@[vx_i1 - 1].0@, vw(vx_self.inner.pairs@[vx_i1 - 1].1)));
      assert(deep_le(vw(vx_self.inner.pairs@[vx_i1 - 1].1), room(indent_amt as int) - 1));
    end
      assert(s@ =~= fmt_head(ow(*vx_self), full, indent_amt as int) + fmt_fields(pws(vx_self.inner.pairs), vx_i1 as int, indent_amt as int));
