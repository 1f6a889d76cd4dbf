fn obj::Obj::get_{bool=Bool,int=Int,str=Str,obj=Obj,arr=Arr,tup=Tup} [C04 C05]
  ret r
  ens[C04] rget(*self, field@) is None ==> r is Err && r->Err_0 is FieldNotFound && r->Err_0->FieldNotFound_0@ == field@
  ens[C04] rget(*self, field@) matches Some(v) ==> (v is $U) == (r is Ok)
  ens[C04] r matches Ok(x) ==> rget(*self, field@) == Some(Value::$U(x))
  ens[C04] rget(*self, field@) matches Some(v) ==> (r matches Err(e) ==> e is TypeMismatch && ty(e->TypeMismatch_1) == vtype(vw(v)))
fn obj::Obj::get_frac [C04 C05]
  ret r
  ens[C04] rget(*self, field@) is None ==> r is Err && r->Err_0 is FieldNotFound && r->Err_0->FieldNotFound_0@ == field@
  ens[C04] rget(*self, field@) matches Some(v) ==> (v is Frac || v is Int) == (r is Ok)
  ens[C04] rget(*self, field@) matches Some(Value::Frac(q)) ==> r == Ok::<BigRational, OverError>(q)
  ens[C04] rget(*self, field@) matches Some(Value::Int(n)) ==> r->Ok_0@ == (Q { n: n@, d: 1 })
  ens[C04] rget(*self, field@) matches Some(v) ==> (r matches Err(e) ==> e is TypeMismatch && e->TypeMismatch_0 == Type::Frac && ty(e->TypeMismatch_1) == vtype(vw(v)))
fn obj::Obj::empty [C05]
  ret r
  ens[C05] r.inner.pairs@.len() == 0 && r.inner.parent is None
  ens[C17] is_generated(r.inner.id)
  ens sentinel_tag(r.inner.id) == 0
fn obj::Obj::from_pairs [C05 C06]
  ret r
  ens[C06] r is Ok == (forall|i: int| 0 <= i < pairs@.len() ==> valid_name((#[trigger] pairs@[i]).0@))
  ens[C05] r matches Ok(o) ==> o.inner.pairs == pairs && o.inner.parent == parent
  ens[C06] r matches Err(e) ==> e is InvalidFieldName && exists|i: int| 0 <= i < pairs@.len() && (#[trigger] pairs@[i]).0@ == e->InvalidFieldName_0@ && !valid_name(pairs@[i].0@)
  ens[C17] r matches Ok(o) ==> is_generated(o.inner.id)
  loop 1
    inv vx_c1@ == pairs@
    inv[C06] forall|i: int| 0 <= i < vx_i1 ==> valid_name((#[trigger] pairs@[i]).0@)
fn obj::Obj::from_pairs_unchecked [C05 C17]
  ret r
  ens[C05] r.inner.pairs == pairs && r.inner.parent == parent
  ens[C17] is_generated(r.inner.id)
  ens sentinel_tag(r.inner.id) == 0
  ens ow(r) == (O { pairs: psv(pairs@), parent: match parent { Some(p) => Some(Box::new(ow(p))), None => None }, tag: 0 })
  tail
    lemma_psv(&vx_ret.inner.pairs);
fn obj::Obj::pairs_ref [C05]
  ret r
  ens[C05] *r == self.inner.pairs
fn obj::Obj::len [C05]
  ret r
  ens[C05] r == self.inner.pairs@.len()
fn obj::Obj::is_empty [C05]
  ret r
  ens[C05] r == (self.inner.pairs@.len() == 0)
fn obj::Obj::contains [C05]
  ret r
  ens[C05] r == (exists|i: int| 0 <= i < self.inner.pairs@.len() && (#[trigger] self.inner.pairs@[i]).0@ == field@)
  iter 1
    pred $x.0@ == field@
fn obj::Obj::get [C05 C17]
  ret r
  ens[C05,C17] r == rget(*self, field@)
  ens[C05] r matches Some(v) ==> sp_get(ow(*self), field@) == Some(vw(v))
  ens[C05] r is None ==> sp_get(ow(*self), field@) is None
  dec self
  entry
    lemma_rget(self, field@);
  iter 1
    pred $x.0@ == field@
    after
      if vx_r1 is Some { lemma_rfind_at(self.inner.pairs@, field@, 0, vx_i1 - 1); } else { lemma_rfind_none(self.inner.pairs@, field@, 0); }
fn obj::Obj::get_with_source [C05 C17]
  ret r
  ens[C05,C17] r == rsource(*self, field@)
  ens[C05] r matches Some(p) ==> sp_source(ow(*self), field@) == Some((vw(p.0), ow(p.1)))
  ens[C05] r is None ==> sp_source(ow(*self), field@) is None
  dec self
  entry
    lemma_rsource(self, field@);
  iter 1
    pred $x.0@ == field@
    after
      if vx_r1 is Some { lemma_rfind_at(self.inner.pairs@, field@, 0, vx_i1 - 1); } else { lemma_rfind_none(self.inner.pairs@, field@, 0); }
fn obj::Obj::has_parent [C05]
  ret r
  ens[C05] r == (self.inner.parent is Some)
fn obj::Obj::get_parent [C05 C17]
  ret r
  ens[C05,C17] r == self.inner.parent
fn obj::Obj::is_valid_field [C06]
  ret r
  ens[C06] r == valid_name(field@)
  loop 1
    inv vx_c1@ == field@
    inv first == (vx_i1 == 0)
    inv[C06] forall|i: int| 0 <= i < vx_i1 ==> name_char(#[trigger] field@[i], i == 0)
    begin
      lemma_name_char(field@[vx_i1 - 1], vx_i1 == 1);
fn obj::Obj::is_valid_field_char [C06]
  ret r
  ens[C06] r == field_char(ch, first)
fn obj::Obj::write_to_string [C14]
  ret r
  ens[C14] r@ == fmt_o(ow(*self), false, 0)
  entry
    axiom_depth(Value::Obj(*self)); lemma_deep_mono(vw(Value::Obj(*self)), 0x0fff_ffff_ffff_ffff, room(0));
fn obj::Obj::write_to_file [C14]
  ret r
  ens[C14] r is Ok ==> fs_wrote(path@, utf8(fmt_o(ow(*self), false, 0)))
fn util::write_file_str [C14]
  ret r
  ens[C14] r is Ok ==> fs_wrote(fname@, utf8(contents@))
