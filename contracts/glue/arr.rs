impl Clone for Arr { #[verifier::external_body] fn clone(&self) -> (r: Arr) ensures r == *self { unimplemented!() } }
impl VxId for ArrInner { open spec fn vx_id(&self) -> usize { self.id } }
impl VxEq<Arr> for Arr { open spec fn eq_rel(&self, o: &Arr) -> bool { veq(crate::value::vw(crate::value::Value::Arr(*self)), crate::value::vw(crate::value::Value::Arr(*o))) } #[verifier::external_body] fn vx_eq(&self, o: &Arr) -> bool { unimplemented!() } }
