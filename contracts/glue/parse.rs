impl VxEq<UnaryOp> for UnaryOp { open spec fn eq_rel(&self, o: &UnaryOp) -> bool { *self == *o } #[verifier::external_body] fn vx_eq(&self, o: &UnaryOp) -> bool { unimplemented!() } }
impl VxEq<BinaryOp> for BinaryOp { open spec fn eq_rel(&self, o: &BinaryOp) -> bool { *self == *o } #[verifier::external_body] fn vx_eq(&self, o: &BinaryOp) -> bool { unimplemented!() } }
impl VxDisp for UnaryOp { open spec fn disp(&self) -> Seq<char> { quoted(un_char(*self)) } #[verifier::external_body] fn vx_disp(&self, s: &mut String) { unimplemented!() } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
impl VxDisp for BinaryOp { open spec fn disp(&self) -> Seq<char> { quoted(bin_char(*self)) } #[verifier::external_body] fn vx_disp(&self, s: &mut String) { unimplemented!() } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
/// The operator a character stands for.
pub open spec fn op_of(c: char) -> Option<BinaryOp> { if c == '+' { Some(BinaryOp::Plus) } else if c == '-' { Some(BinaryOp::Minus) } else if c == '*' { Some(BinaryOp::Mult) } else if c == '/' { Some(BinaryOp::Div) } else if c == '%' { Some(BinaryOp::Mod) } else { None } }
