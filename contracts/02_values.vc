fn static CUR_ID [C17]
  ens the_counter(*r)
fn gen_id [C17]
  ret r
  ens[C17] is_generated(r)
  ens sentinel_tag(r) == 0
fn arr::Arr::empty [C02 C04]
  ret r
  ens[C02] vw(Value::Arr(r)) == V::Arr(Seq::empty(), T::Any)
  ens[C17] is_generated(r.inner.id)
  tail
    assert(vws(vx_ret.inner.values) =~= Seq::<V>::empty());
fn arr::Arr::from_values [C02]
  ret r
  ens[C02] r is Ok == (arr_type(vws(values)) is Some)
  ens[C02] r matches Ok(a) ==> a.inner.values == values && Some(ty(a.inner.inner_t)) == arr_type(vws(values))
  ens[C02] r matches Err(e) ==> exists|k: nat| #[trigger] first_clash(vtypes(vws(values)), k) && e is ArrTypeMismatch && Some(ty(e->ArrTypeMismatch_0)) == msp_fold(vtypes(vws(values)), k) && ty(e->ArrTypeMismatch_1) == vtypes(vws(values))[k as int]
  ens[C17] r matches Ok(a) ==> is_generated(a.inner.id)
  entry
    let ghost ts = vtypes(vws(values));
  loop 1
    inv vx_c1@ == values@
    inv msp_fold(ts, vx_i1 as nat) == Some(ty(tcur))
    inv has_any == crate::sp::has_any(ty(tcur))
    begin
      assert(ts[vx_i1 - 1] == vtype(vw(values@[vx_i1 - 1])));
      lemma_join_noany(ty(tcur), ts[vx_i1 - 1]);
      lemma_fold_stuck(ts, (vx_i1 - 1) as nat, ts.len());
      if !compat(ty(tcur), ts[vx_i1 - 1]) { assert(first_clash(ts, (vx_i1 - 1) as nat)); }
fn arr::Arr::from_values_unchecked [C02 C17]
  ret r
  ens[C02] r.inner.values == values && r.inner.inner_t == inner_t
  ens[C17] is_generated(r.inner.id)
  ens sentinel_tag(r.inner.id) == 0
  ens vw(Value::Arr(r)) == V::Arr(vsv(values@), ty(inner_t))
  tail
    lemma_vsv(&vx_ret.inner.values);
fn arr::Arr::values_ref [C04]
  ret r
  ens[C04] *r == self.inner.values
fn {arr=Arr,tup=Tup}::$U::get [C04 C17]
  ret r
  ens[C04] r is Ok == (index < self.inner.values@.len())
  ens[C04] r matches Ok(v) ==> v == self.inner.values@[index as int]
  ens[C04] r matches Err(e) ==> e == OverError::$UOutOfBounds(index)
fn arr::Arr::inner_type [C02]
  ret r
  ens[C02] ty(r) == ty(self.inner.inner_t)
fn {arr=Arr,tup=Tup}::$U::len [C04]
  ret r
  ens[C04] r == self.inner.values@.len()
fn {arr=Arr,tup=Tup}::$U::is_empty [C04]
  ret r
  ens[C04] r == (self.inner.values@.len() == 0)
fn {arr=Arr,tup=Tup,obj=Obj}::<$U as ReferenceType>::id [C17]
  ret r
  ens[C17] r == self.inner.id
fn {arr=Arr,tup=Tup,obj=Obj}::<$U as ReferenceType>::ptr_eq [C17]
  ret r
  ens[C17] r == (self.inner.id == other.inner.id)
fn {arr=Arr,tup=Tup,obj=Obj}::<$U as ReferenceType>::num_references [C17]
  ret r
  ens r >= 1
fn arr::<Arr as Default>::default [C04]
  ret r
  ens[C02] vw(Value::Arr(r)) == V::Arr(Seq::empty(), T::Any)
fn tup::<Tup as Default>::default [C04]
  ret r
  ens[C02] vw(Value::Tup(r)) == V::Tup(Seq::empty(), Seq::empty())
fn obj::<Obj as Default>::default [C05]
  ret r
  ens[C05] r.inner.pairs@.len() == 0 && r.inner.parent is None
fn arr::<Arr as TryFrom<Vec<Value>>>::try_from [C02]
  ret r
  ens[C02] r is Ok == (arr_type(vws(vec)) is Some)
  ens[C02] r matches Ok(a) ==> a.inner.values == vec && Some(ty(a.inner.inner_t)) == arr_type(vws(vec))
fn arr::<Arr as PartialEq>::eq [C03]
  link pub fn vx_link__$F(a: &Arr, b: &Arr) -> (r: bool) ensures r == a.eq_rel(b) { $F(a, b) }
  ret r
  ens[C03] r == veq(vw(Value::Arr(*vx_self)), vw(Value::Arr(*other)))
  entry
    lemma_vws(&vx_self.inner.values); lemma_vws(&other.inner.values);
fn tup::<Tup as PartialEq>::eq [C03]
  link pub fn vx_link__$F(a: &Tup, b: &Tup) -> (r: bool) ensures r == a.eq_rel(b) { $F(a, b) }
  ret r
  ens[C03] r == veq(vw(Value::Tup(*vx_self)), vw(Value::Tup(*other)))
  entry
    lemma_vws(&vx_self.inner.values); lemma_vws(&other.inner.values);
    lemma_tyv(&vx_self.inner.inner_tvec); lemma_tyv(&other.inner.inner_tvec);
fn obj::<Obj as PartialEq>::eq [C03]
  link pub fn vx_link__$F(a: &Obj, b: &Obj) -> (r: bool) ensures r == a.eq_rel(b) { $F(a, b) }
  ret r
  ens[C03] r == oeq(ow(*vx_self), ow(*other))
  entry
    lemma_pws(&vx_self.inner.pairs); lemma_pws(&other.inner.pairs);
fn obj::<Pair as PartialEq>::eq [C03]
  link pub fn vx_link__$F(a: &Pair, b: &Pair) -> (r: bool) ensures r == a.eq_rel(b) { $F(a, b) }
  ret r
  ens[C03] r == (vx_self.0@ == other.0@ && veq(vw(vx_self.1), vw(other.1)))
fn value::<Value as PartialEq>::eq [C03]
  link pub fn vx_link__$F(a: &Value, b: &Value) -> (r: bool) ensures r == a.eq_rel(b) { $F(a, b) }
  ret r
  ens[C03] r == veq(vw(*vx_self), vw(*other))
fn {arr=Arr,tup=Tup,obj=Obj}::<$U as fmt::Display>::fmt [C14]
  ret r
  ens[C14] r is Ok && final(f).buf@ == old(f).buf@ + fmt_v(vw(Value::$U(*vx_self)), 4)
  entry
    axiom_depth(Value::$U(*vx_self));
fn value::<Value as fmt::Display>::fmt [C14]
  ret r
  ens[C14] r is Ok && final(f).buf@ == old(f).buf@ + fmt_v(vw(*vx_self), 4)
  entry
    axiom_depth(*vx_self);
fn tup::Tup::empty [C02 C04]
  ret r
  ens[C02] vw(Value::Tup(r)) == V::Tup(Seq::empty(), Seq::empty())
  ens[C17] is_generated(r.inner.id)
  tail
    assert(vws(vx_ret.inner.values) =~= Seq::<V>::empty());
    assert(tyv(vx_ret.inner.inner_tvec) =~= Seq::<T>::empty());
fn tup::Tup::from_values [C02 C17]
  ret r
  ens[C02] r.inner.values == values && tyv(r.inner.inner_tvec) == vtypes(vws(values))
  ens[C17] is_generated(r.inner.id)
  ens sentinel_tag(r.inner.id) == 0
  ens vw(Value::Tup(r)) == V::Tup(vsv(values@), vtypes(vsv(values@)))
  entry
    lemma_vsv(&values);
  iter 1
    inv vx_o1@.len() == vx_i1 && vx_a1@ == values@
    inv forall|j: int| 0 <= j < vx_i1 ==> ty(#[trigger] vx_o1@[j]) == vtype(vw(values@[j]))
    after
      assert(tyv(vx_o1) =~= vtypes(vws(values)));
fn tup::Tup::values_ref [C04]
  ret r
  ens[C04] *r == self.inner.values
fn tup::Tup::inner_type_vec [C02]
  ret r
  ens[C02] tyv(r) == tyv(self.inner.inner_tvec)
  tail
    lemma_tyv(&vx_ret); lemma_tyv(&self.inner.inner_tvec); assert(tyv(vx_ret) =~= tyv(self.inner.inner_tvec));
fn tup::<Tup as From<Vec<Value>>>::from [C02]
  impl VxFrom<Vec<Value>>
  spec
    open spec fn from_rel(t: Vec<Value>, r: Tup) -> bool { r.inner.values == t && tyv(r.inner.inner_tvec) == vtypes(vws(t)) && is_generated(r.inner.id) && sentinel_tag(r.inner.id) == 0 && vw(Value::Tup(r)) == V::Tup(vsv(t@), vtypes(vsv(t@))) }
fn value::Value::is_null [C04]
  ret r
  ens[C04] r == (*self is Null)
fn value::Value::get_type [C02 C04]
  ret r
  ens[C04] ty(r) == vtype(vw(*self))
fn value::Value::get_{bool=Bool,int=Int,str=Str,obj=Obj} [C04]
  ret r
  ens[C04] (*self is $U) == (r is Ok)
  ens[C04] r matches Ok(x) ==> *self == Value::$U(x)
  ens[C04] r matches Err(e) ==> e is TypeMismatch && e->TypeMismatch_0 == Type::$U && ty(e->TypeMismatch_1) == vtype(vw(*self))
fn value::Value::get_frac [C04]
  ret r
  ens[C04] r is Ok == (*self is Frac || *self is Int)
  ens[C04] *self matches Value::Frac(q) ==> r == Ok::<BigRational, OverError>(q)
  ens[C04] *self matches Value::Int(n) ==> r->Ok_0@ == (Q { n: n@, d: 1 })
  ens[C04] r matches Err(e) ==> e is TypeMismatch && e->TypeMismatch_0 == Type::Frac && ty(e->TypeMismatch_1) == vtype(vw(*self))
  entry
    if *self is Int { lemma_rat_int(self->Int_0@); }
fn value::Value::get_arr [C04]
  ret r
  entry
    reveal_with_fuel(crate::types::ty, 3);
  ens[C04] (*self is Arr) == (r is Ok)
  ens[C04] r matches Ok(x) ==> *self == Value::Arr(x)
  ens[C04] r matches Err(e) ==> e is TypeMismatch && ty(e->TypeMismatch_0) == tarr(T::Any) && ty(e->TypeMismatch_1) == vtype(vw(*self))
fn value::Value::get_tup [C04]
  ret r
  entry
    reveal_with_fuel(crate::types::ty, 3); reveal_with_fuel(crate::types::tyv, 3);
  tail
    if vx_ret is Err && vx_ret->Err_0 is TypeMismatch && vx_ret->Err_0->TypeMismatch_0 is Tup { assert(tyv(vx_ret->Err_0->TypeMismatch_0->Tup_0) =~= Seq::<T>::empty()); }
  ens[C04] (*self is Tup) == (r is Ok)
  ens[C04] r matches Ok(x) ==> *self == Value::Tup(x)
  ens[C04] r matches Err(e) ==> e is TypeMismatch && ty(e->TypeMismatch_0) == T::Tup(Seq::empty()) && ty(e->TypeMismatch_1) == vtype(vw(*self))
fn value::<Value as PartialEq<{bool=Bool}>>::eq [C03]
  impl VxEq<$T>
  spec
    open spec fn eq_rel(&self, o: &$T) -> bool { *self == Value::$U(*o) }
fn value::<{bool=Bool} as PartialEq<Value>>::eq [C03]
  impl VxEq<Value>
  spec
    open spec fn eq_rel(&self, o: &Value) -> bool { *o == Value::$U(*self) }
fn value::<Value as PartialEq<{BigInt=Int,BigRational=Frac,String=Str}>>::eq [C03]
  impl VxEq<$T>
  spec
    open spec fn eq_rel(&self, o: &$T) -> bool { vw(*self) == V::$U(o@) }
fn value::<{BigInt=Int,BigRational=Frac,String=Str} as PartialEq<Value>>::eq [C03]
  impl VxEq<Value>
  spec
    open spec fn eq_rel(&self, o: &Value) -> bool { vw(*o) == V::$U(self@) }
fn value::<Value as PartialEq<{arr::Arr=Arr,tup::Tup=Tup,obj::Obj=Obj}>>::eq [C03]
  impl VxEq<$T>
  spec
    open spec fn eq_rel(&self, o: &$T) -> bool { veq(vw(*self), vw(Value::$U(*o))) }
fn value::<{arr::Arr=Arr,tup::Tup=Tup,obj::Obj=Obj} as PartialEq<Value>>::eq [C03]
  impl VxEq<Value>
  spec
    open spec fn eq_rel(&self, o: &Value) -> bool { veq(vw(*o), vw(Value::$U(*self))) }
fn value::<Value as PartialEq<&'astr>>::eq [C03]
  ret r
  ens[C03] r == (vw(*vx_self) == V::Str(other@))
fn value::<&'astr as PartialEq<Value>>::eq [C03]
  ret r
  ens[C03] r == (vw(*other) == V::Str(vx_self@))
fn value::<Value as PartialEq<{usize,u8,u16,u32,u64,i8,i16,i32,i64}>>::eq [C03]
  impl VxEq<$T>
  spec
    open spec fn eq_rel(&self, o: &$T) -> bool { vw(*self) == V::Int(*o as int) }
fn value::<{usize,u8,u16,u32,u64,i8,i16,i32,i64} as PartialEq<Value>>::eq [C03]
  impl VxEq<Value>
  spec
    open spec fn eq_rel(&self, o: &Value) -> bool { vw(*o) == V::Int(*self as int) }
fn value::<Value as From<{usize,u8,u16,u32,u64,i8,i16,i32,i64}>>::from [C04]
  impl VxFrom<$T>
  spec
    open spec fn from_rel(t: $T, r: Value) -> bool { vw(r) == V::Int(t as int) }
fn value::<Value as From<{bool=Bool,BigInt=Int,BigRational=Frac,String=Str,arr::Arr=Arr,tup::Tup=Tup,obj::Obj=Obj}>>::from [C04 C17]
  impl VxFrom<$T>
  spec
    open spec fn from_rel(t: $T, r: Value) -> bool { r == Value::$U(t) }
fn value::<Value as From<&'astr>>::from [C04]
  ret r
  ens[C04] vw(r) == V::Str(inner@)
fn arr::<Arr as Clone>::clone [C17]
  link pub fn vx_link__$F(a: &Arr) -> (r: Arr) ensures r == *a { $F(a) }
  ret r
  ens[C17] r == *vx_self
fn tup::<Tup as Clone>::clone [C17]
  link pub fn vx_link__$F(a: &Tup) -> (r: Tup) ensures r == *a { $F(a) }
  ret r
  ens[C17] r == *vx_self
fn obj::<Obj as Clone>::clone [C17]
  link pub fn vx_link__$F(a: &Obj) -> (r: Obj) ensures r == *a { $F(a) }
  ret r
  ens[C17] r == *vx_self
fn obj::<Pair as Clone>::clone [C17]
  link pub fn vx_link__$F(a: &Pair) -> (r: Pair) ensures r == *a { $F(a) }
  ret r
  ens[C17] r == *vx_self
fn value::<Value as Clone>::clone [C17]
  link pub fn vx_link__$F(a: &Value) -> (r: Value) ensures r == *a { $F(a) }
  ret r
  ens[C17] r == *vx_self
fn arr::Arr::with_each [C17]
  ens[C17] final(f).log() == old(f).log() + Seq::new(self.inner.values@.len(), |i: int| (self.inner.values@[i],))
  loop 1
    inv vx_c1@ == self.inner.values@
    inv[C17] f.log() =~= old(f).log() + Seq::new(vx_i1 as nat, |i: int| (self.inner.values@[i],))
fn arr::Arr::iter [C17]
  ret r
  ens[C17] vstd::std_specs::iter::IteratorSpec::remaining(&r).len() == self.inner.values@.len() && forall|i: int| 0 <= i < self.inner.values@.len() ==> *(#[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&r)[i]) == self.inner.values@[i]
fn tup::Tup::with_each [C17]
  ens[C17] final(f).log() == old(f).log() + Seq::new(self.inner.values@.len(), |i: int| (self.inner.values@[i],))
  loop 1
    inv vx_c1@ == self.inner.values@
    inv[C17] f.log() =~= old(f).log() + Seq::new(vx_i1 as nat, |i: int| (self.inner.values@[i],))
fn tup::Tup::iter [C17]
  ret r
  ens[C17] vstd::std_specs::iter::IteratorSpec::remaining(&r).len() == self.inner.values@.len() && forall|i: int| 0 <= i < self.inner.values@.len() ==> *(#[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&r)[i]) == self.inner.values@[i]
fn obj::Obj::with_each [C17]
  ens[C17] final(f).log() == old(f).log() + Seq::new(self.inner.pairs@.len(), |i: int| (self.inner.pairs@[i].0, self.inner.pairs@[i].1))
  loop 1
    inv vx_c1@ == self.inner.pairs@
    inv[C17] f.log() =~= old(f).log() + Seq::new(vx_i1 as nat, |i: int| (self.inner.pairs@[i].0, self.inner.pairs@[i].1))
fn obj::Obj::iter [C17]
  ret r
  ens[C17] vstd::std_specs::iter::IteratorSpec::remaining(&r).len() == self.inner.pairs@.len() && forall|i: int| 0 <= i < self.inner.pairs@.len() ==> *(#[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&r)[i]) == self.inner.pairs@[i]
