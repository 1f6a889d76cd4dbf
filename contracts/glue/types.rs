pub open spec fn ty(t: Type) -> T decreases t {
    match t {
        Type::Any => T::Any, Type::Null => T::Null, Type::Bool => T::Bool, Type::Int => T::Int, Type::Frac => T::Frac, Type::Str => T::Str, Type::Obj => T::Obj,
        Type::Arr(b) => T::Arr(Box::new(ty(*b))),
        Type::Tup(v) => T::Tup(tyv(v)),
    }
}
pub open spec fn tyv(v: Vec<Type>) -> Seq<T> decreases v { Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { ty(v@[i]) } else { T::Any }) }
pub open spec fn tys(v: Seq<Type>) -> Seq<T> { Seq::new(v.len(), |i: int| ty(v[i])) }
impl View for Type { type V = T; open spec fn view(&self) -> T { ty(*self) } }
impl Clone for Type { #[verifier::external_body] fn clone(&self) -> (r: Type) ensures ty(r) == ty(*self) { unimplemented!() } }
impl VxEq<Type> for Type { open spec fn eq_rel(&self, o: &Type) -> bool { compat(ty(*self), ty(*o)) } #[verifier::external_body] fn vx_eq(&self, o: &Type) -> bool { unimplemented!() } }
impl VxDisp for Type { open spec fn disp(&self) -> Seq<char> { type_disp(ty(*self)) } #[verifier::external_body] fn vx_disp(&self, s: &mut String) { unimplemented!() } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
