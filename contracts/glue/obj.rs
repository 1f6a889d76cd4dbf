use crate::value::{vw, vws, pws, ow};
impl Clone for Obj { #[verifier::external_body] fn clone(&self) -> (r: Obj) ensures r == *self { unimplemented!() } }
impl Clone for Pair { #[verifier::external_body] fn clone(&self) -> (r: Pair) ensures r == *self { unimplemented!() } }
impl VxId for ObjInner { open spec fn vx_id(&self) -> usize { self.id } }
impl VxEq<Obj> for Obj { open spec fn eq_rel(&self, o: &Obj) -> bool { oeq(ow(*self), ow(*o)) } #[verifier::external_body] fn vx_eq(&self, o: &Obj) -> bool { unimplemented!() } }
impl VxEq<Pair> for Pair { open spec fn eq_rel(&self, o: &Pair) -> bool { self.0@ == o.0@ && veq(vw(self.1), vw(o.1)) } #[verifier::external_body] fn vx_eq(&self, o: &Pair) -> bool { unimplemented!() } }
/// Lookup on the representation: the very value stored, not a copy of its content.
pub open spec fn rfind(ps: Seq<Pair>, f: Seq<char>, i: int) -> Option<Value> decreases ps.len() - i {
    if i < 0 || i >= ps.len() { None } else if ps[i].0@ == f { Some(ps[i].1) } else { rfind(ps, f, i + 1) }
}
pub open spec fn rget(o: Obj, f: Seq<char>) -> Option<Value> decreases o { match rfind(o.inner.pairs@, f, 0) { Some(v) => Some(v), None => match o.inner.parent { Some(p) => rget(p, f), None => None } } }
pub open spec fn rsource(o: Obj, f: Seq<char>) -> Option<(Value, Obj)> decreases o { match rfind(o.inner.pairs@, f, 0) { Some(v) => Some((v, o)), None => match o.inner.parent { Some(p) => rsource(p, f), None => None } } }
pub proof fn lemma_rfind_at(ps: Seq<Pair>, f: Seq<char>, i: int, k: int)
    requires 0 <= i <= k < ps.len(), ps[k].0@ == f, forall|j: int| i <= j < k ==> (#[trigger] ps[j]).0@ != f
    ensures rfind(ps, f, i) == Some(ps[k].1) decreases k - i { if i < k { lemma_rfind_at(ps, f, i + 1, k); } }
pub proof fn lemma_rfind_none(ps: Seq<Pair>, f: Seq<char>, i: int)
    requires 0 <= i, forall|j: int| i <= j < ps.len() ==> (#[trigger] ps[j]).0@ != f
    ensures rfind(ps, f, i) is None decreases ps.len() - i { if i < ps.len() { lemma_rfind_none(ps, f, i + 1); } }
pub proof fn lemma_rfind_view(ps: &Vec<Pair>, f: Seq<char>, i: int)
    requires 0 <= i
    ensures rfind(ps@, f, i) matches Some(v) ==> find_from(pws(*ps), f, i) == Some(vw(v)), rfind(ps@, f, i) is None ==> find_from(pws(*ps), f, i) is None
    decreases ps@.len() - i { if i < ps@.len() { lemma_rfind_view(ps, f, i + 1); } }
pub proof fn lemma_rget(o: &Obj, f: Seq<char>)
    ensures rget(*o, f) matches Some(v) ==> sp_get(ow(*o), f) == Some(vw(v)), rget(*o, f) is None ==> sp_get(ow(*o), f) is None decreases o
{ lemma_rfind_view(&o.inner.pairs, f, 0); match &o.inner.parent { Some(p) => lemma_rget(p, f), None => {} } }
pub proof fn lemma_rsource(o: &Obj, f: Seq<char>)
    ensures rsource(*o, f) matches Some(p) ==> sp_source(ow(*o), f) == Some((vw(p.0), ow(p.1))), rsource(*o, f) is None ==> sp_source(ow(*o), f) is None decreases o
{ lemma_rfind_view(&o.inner.pairs, f, 0); match &o.inner.parent { Some(p) => lemma_rsource(p, f), None => {} } }
