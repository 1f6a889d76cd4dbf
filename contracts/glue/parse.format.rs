pub trait Format {
    spec fn fmt_pre(&self, full: bool, n: int) -> bool;
    spec fn fmt_spec(&self, full: bool, n: int) -> Seq<char>;
    fn format(&self, full: bool, indent_amt: usize) -> (r: String) requires self.fmt_pre(full, indent_amt as int) ensures r@ == self.fmt_spec(full, indent_amt as int);
}
impl Format for BigRational { open spec fn fmt_pre(&self, full: bool, n: int) -> bool { true } open spec fn fmt_spec(&self, full: bool, n: int) -> Seq<char> { fmt_q(self@) } #[verifier::external_body] fn format(&self, full: bool, indent_amt: usize) -> String { unimplemented!() } }
impl Format for String { open spec fn fmt_pre(&self, full: bool, n: int) -> bool { true } open spec fn fmt_spec(&self, full: bool, n: int) -> Seq<char> { fmt_s(self@) } #[verifier::external_body] fn format(&self, full: bool, indent_amt: usize) -> String { unimplemented!() } }
impl Format for Value { open spec fn fmt_pre(&self, full: bool, n: int) -> bool { n >= 4 && deep_le(vw(*self), room(n)) } open spec fn fmt_spec(&self, full: bool, n: int) -> Seq<char> { fmt_v(vw(*self), n) } #[verifier::external_body] fn format(&self, full: bool, indent_amt: usize) -> String { unimplemented!() } }
impl Format for Arr { open spec fn fmt_pre(&self, full: bool, n: int) -> bool { n >= 4 && deep_le(vw(Value::Arr(*self)), room(n)) } open spec fn fmt_spec(&self, full: bool, n: int) -> Seq<char> { fmt_a(vw(Value::Arr(*self))->Arr_0, full, n) } #[verifier::external_body] fn format(&self, full: bool, indent_amt: usize) -> String { unimplemented!() } }
impl Format for Tup { open spec fn fmt_pre(&self, full: bool, n: int) -> bool { n >= 4 && deep_le(vw(Value::Tup(*self)), room(n)) } open spec fn fmt_spec(&self, full: bool, n: int) -> Seq<char> { fmt_t(vw(Value::Tup(*self))->Tup_0, full, n) } #[verifier::external_body] fn format(&self, full: bool, indent_amt: usize) -> String { unimplemented!() } }
impl Format for Obj { open spec fn fmt_pre(&self, full: bool, n: int) -> bool { n >= 0 && (full ==> n >= 4) && deep_le(vw(Value::Obj(*self)), room(n)) } open spec fn fmt_spec(&self, full: bool, n: int) -> Seq<char> { fmt_o(crate::value::ow(*self), full, n) } #[verifier::external_body] fn format(&self, full: bool, indent_amt: usize) -> String { unimplemented!() } }
use crate::value::vw;
/// A value in memory takes more than a byte per level of nesting (and cannot contain itself).
#[verifier::external_body] pub proof fn axiom_depth(v: Value) ensures deep_le(vw(v), 0x0fff_ffff_ffff_ffff) { }
