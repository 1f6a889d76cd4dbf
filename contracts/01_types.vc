fn types::Type::is [C01]
  ret r
  ens[C01] r == (ty(*self) == ty(*other))
  dec self
  entry
    if *self is Tup { lemma_tyv(&self->Tup_0); } if *other is Tup { lemma_tyv(&other->Tup_0); }
  iter 1
    pred ty($a) == ty($b)
    after
      if vx_r1 { assert(ty(*self)->Tup_0 =~= ty(*other)->Tup_0); }
      else { let j = choose|j: int| 0 <= j < vx_a1@.len() && ty(#[trigger] vx_a1@[j]) != ty(vx_b1@[j]); assert(ty(*self)->Tup_0[j] != ty(*other)->Tup_0[j]); }
fn types::Type::has_any [C01]
  ret r
  ens[C01] r == crate::sp::has_any(ty(*self))
  dec self
  entry
    if *self is Tup { lemma_tyv(&self->Tup_0); }
  iter 1
    pred crate::sp::has_any(ty($x))
    after
      let s = ty(*self)->Tup_0;
      if vx_r1 {
        let j = choose|j: int| 0 <= j < tvec@.len() && crate::sp::has_any(ty(#[trigger] tvec@[j]));
        assert(crate::sp::has_any(s[j]));
      }
fn types::Type::most_specific [C01 C02]
  ret r
  ens[C01] r is Some == compat(ty(*type1), ty(*type2))
  ens[C01] r matches Some(p) ==> ty(p.0) == join(ty(*type1), ty(*type2))
  ens[C01] r matches Some(p) ==> p.1 == crate::sp::has_any(join(ty(*type1), ty(*type2)))
  dec type1
  entry
    if *type1 is Tup { lemma_tyv(&type1->Tup_0); } if *type2 is Tup { lemma_tyv(&type2->Tup_0); }
  iter 1
    inv vx_o1@.len() == (if vx_r1 { vx_i1 as int } else { vx_i1 - 1 })
    inv vx_r1 ==> forall|j: int| 0 <= j < vx_i1 ==> compat(ty(#[trigger] vx_a1@[j]), ty(vx_b1@[j])) && ty(vx_o1@[j]) == join(ty(vx_a1@[j]), ty(vx_b1@[j]))
    inv !vx_r1 ==> exists|j: int| 0 <= j < vx_i1 && !compat(ty(#[trigger] vx_a1@[j]), ty(vx_b1@[j]))
    inv vx_r1 ==> has_any == exists|j: int| 0 <= j < vx_i1 && crate::sp::has_any(join(ty(#[trigger] vx_a1@[j]), ty(vx_b1@[j])))
    after
      let (a, b) = (ty(*type1), ty(*type2));
      if vx_r1 {
        assert(compat(a, b));
        let js = join(a, b)->Tup_0;
        assert(tyv(vx_o1) =~= js);
        if has_any { let j = choose|j: int| 0 <= j < vx_a1@.len() && crate::sp::has_any(join(ty(#[trigger] vx_a1@[j]), ty(vx_b1@[j]))); assert(crate::sp::has_any(js[j])); }
        else { assert(forall|j: int| 0 <= j < js.len() ==> js[j] == join(ty(#[trigger] vx_a1@[j]), ty(vx_b1@[j]))); assert(!crate::sp::has_any(T::Tup(js))); }
      } else {
        let j = choose|j: int| 0 <= j < vx_i1 && !compat(ty(#[trigger] vx_a1@[j]), ty(vx_b1@[j]));
        assert(!compat(a->Tup_0[j], b->Tup_0[j]));
      }
fn types::<Type as PartialEq>::eq [C01 C03]
  link pub fn vx_link__$F(a: &Type, b: &Type) -> (r: bool) ensures r == a.eq_rel(b) { $F(a, b) }
  ret r
  ens[C01] r == compat(ty(*vx_self), ty(*other))
  dec vx_self
  sub `box1 == box2` => `eq__PartialEq__Type(box1, box2)`
  entry
    if *vx_self is Tup { lemma_tyv(&vx_self->Tup_0); } if *other is Tup { lemma_tyv(&other->Tup_0); }
fn types::<Type as fmt::Display>::fmt [C04]
  link pub fn vx_link__$F(x: &Type, s: &mut fmt::Formatter) -> (r: fmt::Result) ensures r is Ok && final(s).buf@ == old(s).buf@ + x.disp() { $F(x, s) }
  ret r
  ens r is Ok && final(f).buf@ == old(f).buf@ + type_disp(ty(*vx_self))
  entry
    if *vx_self is Tup { lemma_tyv(&vx_self->Tup_0); }
  tail
    if *vx_self is Tup { assert(tyv(vx_self->Tup_0).len() == 0 ==> types_disp(tyv(vx_self->Tup_0), 0) =~= ""@) by { reveal_strlit(""); } }
    assert(f.buf@ =~= old(f).buf@ + type_disp(ty(*vx_self)));
  iter 1
    inv tvec@.len() > 0 && (vx_i1 == 0 ==> tvec@.len() == 0)
    inv vx_acc1@ == types_disp(tyv(*tvec), vx_i1 as int)
fn types::<Type as Clone>::clone [C17 C02]
  link pub fn vx_link__$F(a: &Type) -> (r: Type) ensures ty(r) == ty(*a) { $F(a) }
  ret r
  ens[C17] ty(r) == ty(*vx_self)
  entry
    if *vx_self is Tup { lemma_tyv(&vx_self->Tup_0); }
  tail
    if *vx_self is Tup { lemma_tyv(&vx_ret->Tup_0); assert(tyv(vx_ret->Tup_0) =~= tyv(vx_self->Tup_0)); }
