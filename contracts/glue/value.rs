/// The contents of a value (ids of containers erased).
pub open spec fn vw(v: Value) -> V decreases v {
    match v {
        Value::Null => V::Null, Value::Bool(b) => V::Bool(b), Value::Int(i) => V::Int(i@), Value::Frac(f) => V::Frac(f@), Value::Str(s) => V::Str(s@),
        Value::Arr(a) => V::Arr(vws(a.inner.values), ty(a.inner.inner_t)),
        Value::Tup(t) => V::Tup(vws(t.inner.values), tyv(t.inner.inner_tvec)),
        Value::Obj(o) => V::Obj(ow(o)),
    }
}
pub open spec fn vws(s: Vec<Value>) -> Seq<V> decreases s { Seq::new(s@.len(), |i: int| if 0 <= i < s@.len() { vw(s@[i]) } else { V::Null }) }
pub open spec fn pws(s: Vec<obj::Pair>) -> Seq<(Seq<char>, V)> decreases s { Seq::new(s@.len(), |i: int| if 0 <= i < s@.len() { (s@[i].0@, vw(s@[i].1)) } else { (Seq::empty(), V::Null) }) }
pub open spec fn ow(o: obj::Obj) -> O decreases o {
    O { pairs: pws(o.inner.pairs), parent: match o.inner.parent { Some(p) => Some(Box::new(ow(p))), None => None }, tag: sentinel_tag(o.inner.id) }
}
pub use crate::types::{ty, tyv, tys};
impl View for Value { type V = V; open spec fn view(&self) -> V { vw(*self) } }
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Value) ensures r == *self { unimplemented!() } }
impl VxEq<Value> for Value { open spec fn eq_rel(&self, o: &Value) -> bool { veq(vw(*self), vw(*o)) } #[verifier::external_body] fn vx_eq(&self, o: &Value) -> bool { unimplemented!() } }
pub proof fn lemma_vws(s: &Vec<Value>) ensures vws(*s).len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vws(*s)[i] == vw(#[trigger] s@[i]) { }
pub proof fn lemma_pws(s: &Vec<obj::Pair>) ensures pws(*s).len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> pws(*s)[i] == ((#[trigger] s@[i]).0@, vw(s@[i].1)) { }
pub proof fn lemma_tyv(s: &Vec<crate::types::Type>) ensures tyv(*s).len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> tyv(*s)[i] == ty(#[trigger] s@[i]) { }
pub open spec fn psv(ps: Seq<obj::Pair>) -> Seq<(Seq<char>, V)> { Seq::new(ps.len(), |i: int| (ps[i].0@, vw(ps[i].1))) }
pub open spec fn vsv(s: Seq<Value>) -> Seq<V> { Seq::new(s.len(), |i: int| vw(s[i])) }
pub proof fn lemma_vsv(v: &Vec<Value>) ensures vws(*v) == vsv(v@) { lemma_vws(v); assert(vws(*v) =~= vsv(v@)); }
pub proof fn lemma_psv(v: &Vec<obj::Pair>) ensures pws(*v) == psv(v@) { lemma_pws(v); assert(pws(*v) =~= psv(v@)); }
pub proof fn lemma_psv0() ensures psv(Seq::empty()) == Seq::<(Seq<char>, V)>::empty() { assert(psv(Seq::empty()) =~= Seq::<(Seq<char>, V)>::empty()); }
pub proof fn lemma_vsv0() ensures vsv(Seq::empty()) == Seq::<V>::empty() { assert(vsv(Seq::empty()) =~= Seq::<V>::empty()); }
