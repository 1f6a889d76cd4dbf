impl Clone for Tup { #[verifier::external_body] fn clone(&self) -> (r: Tup) ensures r == *self { unimplemented!() } }
impl VxId for TupInner { open spec fn vx_id(&self) -> usize { self.id } }
impl VxEq<Tup> for Tup { open spec fn eq_rel(&self, o: &Tup) -> bool { veq(crate::value::vw(crate::value::Value::Tup(*self)), crate::value::vw(crate::value::Value::Tup(*o))) } #[verifier::external_body] fn vx_eq(&self, o: &Tup) -> bool { unimplemented!() } }
