// Shims: the parts of std, num-bigint and num-rational that the code uses, with the contracts that
// are assumed of them.  Everything `external_body` or `axiom` here is part of the trusted base and is
// listed in the evidence.
pub use vstd::prelude::*;
pub use std::sync::Arc;
pub use std::collections::VecDeque;
pub use std::slice::Iter;
#[allow(unused_imports)] use crate::sp::*;

// ------------------------------------------------------------------ equality
pub trait VxEq<B: ?Sized> {
    spec fn eq_rel(&self, o: &B) -> bool;
    fn vx_eq(&self, o: &B) -> (r: bool) ensures r == self.eq_rel(o);
}
impl<'a, A: VxEq<B> + ?Sized, B: ?Sized> VxEq<&'a B> for A {
    open spec fn eq_rel(&self, o: &&'a B) -> bool { self.eq_rel(*o) }
    fn vx_eq(&self, o: &&'a B) -> bool { self.vx_eq(*o) }
}
macro_rules! prim_eq { ($($t:ty),*) => { verus!{ $( impl VxEq<$t> for $t {
    open spec fn eq_rel(&self, o: &$t) -> bool { *self == *o }
    fn vx_eq(&self, o: &$t) -> bool { *self == *o }
} )* } } }
prim_eq!(bool, char, usize, u8, u16, u32, u64, i8, i16, i32, i64);
impl VxEq<str> for str {
    open spec fn eq_rel(&self, o: &str) -> bool { self@ == o@ }
    #[verifier::external_body] fn vx_eq(&self, o: &str) -> bool { self == o }
}
impl VxEq<String> for str {
    open spec fn eq_rel(&self, o: &String) -> bool { self@ == o@ }
    fn vx_eq(&self, o: &String) -> bool { <str as VxEq<str>>::vx_eq(self, o.as_str()) }
}
impl VxEq<String> for String {
    open spec fn eq_rel(&self, o: &String) -> bool { self@ == o@ }
    fn vx_eq(&self, o: &String) -> bool { <str as VxEq<str>>::vx_eq(self.as_str(), o.as_str()) }
}
impl VxEq<str> for String {
    open spec fn eq_rel(&self, o: &str) -> bool { self@ == o@ }
    fn vx_eq(&self, o: &str) -> bool { <str as VxEq<str>>::vx_eq(self.as_str(), o) }
}
impl<T: VxEq<T>> VxEq<Option<T>> for Option<T> {
    open spec fn eq_rel(&self, o: &Option<T>) -> bool { match (*self, *o) { (None, None) => true, (Some(a), Some(b)) => a.eq_rel(&b), _ => false } }
    fn vx_eq(&self, o: &Option<T>) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.vx_eq(b), _ => false } }
}
impl<T: VxEq<T>> VxEq<Vec<T>> for Vec<T> {
    open spec fn eq_rel(&self, o: &Vec<T>) -> bool { self@.len() == o@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).eq_rel(&o@[i]) }
    fn vx_eq(&self, o: &Vec<T>) -> bool {
        if self.len() != o.len() { return false; }
        let mut i: usize = 0;
        while i < self.len() invariant i <= self@.len(), self@.len() == o@.len(), forall|j: int| 0 <= j < i ==> (#[trigger] self@[j]).eq_rel(&o@[j]) decreases self@.len() - i {
            if !self[i].vx_eq(&o[i]) { return false; }
            i = i + 1;
        }
        true
    }
}
impl<T: VxEq<T>> VxEq<Box<T>> for Box<T> {
    open spec fn eq_rel(&self, o: &Box<T>) -> bool { (**self).eq_rel(&**o) }
    fn vx_eq(&self, o: &Box<T>) -> bool { (**self).vx_eq(&**o) }
}
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a.vx_eq(b) }

// ------------------------------------------------------------------ conversions
pub trait VxFrom<T>: Sized {
    spec fn from_rel(t: T, r: Self) -> bool;
    fn vx_from(t: T) -> (r: Self) ensures Self::from_rel(t, r);
}
impl<T> VxFrom<T> for T {
    open spec fn from_rel(t: T, r: T) -> bool { r == t }
    fn vx_from(t: T) -> (r: T) { t }
}
pub trait VxInto<U>: Sized {
    spec fn into_rel(self, r: U) -> bool;
    fn vx_into(self) -> (r: U) ensures self.into_rel(r);
}
impl<T, U: VxFrom<T>> VxInto<U> for T {
    open spec fn into_rel(self, r: U) -> bool { U::from_rel(self, r) }
    fn vx_into(self) -> (r: U) { U::vx_from(self) }
}
impl<'a> VxFrom<&'a str> for String {
    open spec fn from_rel(t: &'a str, r: String) -> bool { r@ == t@ }
    fn vx_from(t: &'a str) -> (r: String) { t.vx_to_owned() }
}
impl<'a> VxFrom<&'a String> for String {
    open spec fn from_rel(t: &'a String, r: String) -> bool { r@ == t@ }
    fn vx_from(t: &'a String) -> (r: String) { t.clone() }
}
impl VxFrom<char> for String {
    open spec fn from_rel(t: char, r: String) -> bool { r@ == seq![t] }
    fn vx_from(t: char) -> (r: String) { let mut s = String::new(); s.push(t); proof { assert(s@ =~= seq![t]); } s }
}
pub fn vx_string_from<T>(t: T) -> (r: String) where String: VxFrom<T> ensures String::from_rel(t, r) { String::vx_from(t) }
pub trait VxDefault: Sized { spec fn def_rel(r: Self) -> bool; fn vx_default() -> (r: Self) ensures Self::def_rel(r); }
impl<T> VxDefault for Vec<T> { open spec fn def_rel(r: Vec<T>) -> bool { r@ == Seq::<T>::empty() } fn vx_default() -> (r: Vec<T>) { Vec::new() } }
impl VxDefault for String { open spec fn def_rel(r: String) -> bool { r@ == Seq::<char>::empty() } fn vx_default() -> (r: String) { String::new() } }

// ------------------------------------------------------------------ panics
pub fn vx_assert(b: bool) requires b { }
#[verifier::external_body] pub fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }
pub trait VxUnwrap<T>: Sized {
    spec fn unwrap_pre(&self) -> bool; spec fn unwrap_rel(&self, t: T) -> bool;
    fn vx_unwrap(self) -> (r: T) requires self.unwrap_pre() ensures self.unwrap_rel(r);
}
impl<T> VxUnwrap<T> for Option<T> {
    open spec fn unwrap_pre(&self) -> bool { self is Some }
    open spec fn unwrap_rel(&self, t: T) -> bool { *self == Some(t) }
    fn vx_unwrap(self) -> (r: T) { match self { Some(v) => v, None => vx_panic() } }
}
impl<T, E> VxUnwrap<T> for Result<T, E> {
    open spec fn unwrap_pre(&self) -> bool { self is Ok }
    open spec fn unwrap_rel(&self, t: T) -> bool { *self == Ok::<T, E>(t) }
    fn vx_unwrap(self) -> (r: T) { match self { Ok(v) => v, Err(_) => vx_panic() } }
}

// ------------------------------------------------------------------ callbacks
/// A callback, observed through the sequence of its calls.
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VxCalls<T> { _p: core::marker::PhantomData<T> }
impl<T> VxCalls<T> { pub uninterp spec fn log(&self) -> Seq<T>; }
impl<A> VxCalls<(A,)> { #[verifier::external_body] pub fn vx_call1(&mut self, a: &A) ensures final(self).log() == old(self).log().push((*a,)) { unimplemented!() } }
impl<A, B> VxCalls<(A, B)> { #[verifier::external_body] pub fn vx_call2(&mut self, a: &A, b: &B) ensures final(self).log() == old(self).log().push((*a, *b)) { unimplemented!() } }

// ------------------------------------------------------------------ slices, deref, Arc
pub trait VxSl<T> { spec fn sl(&self) -> Seq<T>; fn vx_sl(&self) -> (r: &[T]) ensures r@ == self.sl(); }
impl<T> VxSl<T> for Vec<T> { open spec fn sl(&self) -> Seq<T> { self@ } fn vx_sl(&self) -> (r: &[T]) { self.as_slice() } }
impl<T> VxSl<T> for [T] { open spec fn sl(&self) -> Seq<T> { self@ } fn vx_sl(&self) -> (r: &[T]) { self } }
pub fn vx_none_of<'a, T>(s: &'a [T]) -> (r: Option<&'a T>) ensures r is None { None }
pub trait VxDeref<T> { spec fn der(&self) -> T; fn vx_deref(&self) -> (r: &T) ensures *r == self.der(); }
impl<T> VxDeref<T> for Box<T> { open spec fn der(&self) -> T { **self } fn vx_deref(&self) -> (r: &T) { &**self } }
/// Pointer identity of the three containers: see `vx_id` (each allocation has exactly one id).
pub trait VxId { spec fn vx_id(&self) -> usize; }
#[verifier::external_body] pub fn vx_arc_ptr_eq<T: VxId>(a: &Arc<T>, b: &Arc<T>) -> (r: bool) ensures r == ((**a).vx_id() == (**b).vx_id()) { Arc::ptr_eq(a, b) }
#[verifier::external_body] pub fn vx_arc_strong_count<T>(a: &Arc<T>) -> (r: usize) ensures r >= 1 { Arc::strong_count(a) }
/// A vector of values larger than a byte never holds more than isize::MAX elements.
#[verifier::external_body] pub proof fn axiom_vec_len<T>(v: Vec<T>) ensures v@.len() <= 0x7fff_ffff_ffff_ffff { }
#[verifier::external_body] pub proof fn axiom_str_len(s: String) ensures s@.len() <= 0x7fff_ffff_ffff_ffff { }

// ------------------------------------------------------------------ strings and chars
pub assume_specification [ String::len ](s: &String) -> (r: usize) ensures r == utf8_len(s@), r <= 0x7fff_ffff_ffff_ffff;
pub assume_specification [ String::with_capacity ](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
pub assume_specification<T, A: std::alloc::Allocator> [ VecDeque::<T, A>::is_empty ](s: &VecDeque<T, A>) -> (r: bool) ensures r == (s@.len() == 0);
pub uninterp spec fn utf8_len(s: Seq<char>) -> nat;
/// UTF-8 takes one byte for an ASCII character.
#[verifier::external_body] pub proof fn axiom_utf8(s: Seq<char>) ensures utf8_len(s) >= s.len(), (forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) as u32) < 128) ==> utf8_len(s) == s.len() { }
/// The length of a string slice is the number of its bytes.
#[verifier::external_body] pub proof fn axiom_str_bytes(s: &str) ensures s.len() == utf8_len(s@), s.len() <= 0x7fff_ffff_ffff_ffff { }
/// A pattern at the beginning or the end of a text: a character or a text.
pub trait VxPat { spec fn begins(&self, s: Seq<char>) -> bool; spec fn finishes(&self, s: Seq<char>) -> bool; }
impl VxPat for char { open spec fn begins(&self, s: Seq<char>) -> bool { s.len() > 0 && s[0] == *self } open spec fn finishes(&self, s: Seq<char>) -> bool { s.len() > 0 && s.last() == *self } }
impl<'a> VxPat for &'a str {
    open spec fn begins(&self, s: Seq<char>) -> bool { s.len() >= self@.len() && forall|i: int| 0 <= i < self@.len() ==> s[i] == #[trigger] self@[i] }
    open spec fn finishes(&self, s: Seq<char>) -> bool { s.len() >= self@.len() && forall|i: int| 0 <= i < self@.len() ==> s[s.len() - self@.len() + i] == #[trigger] self@[i] }
}
pub trait VxStr {
    spec fn sv(&self) -> Seq<char>;
    fn vx_starts_with<P: VxPat>(&self, c: P) -> (r: bool) ensures r == c.begins(self.sv());
    fn vx_ends_with<P: VxPat>(&self, c: P) -> (r: bool) ensures r == c.finishes(self.sv());
    fn vx_trim_end_matches(&self, c: char) -> (r: &str) ensures r@ == trim_end(self.sv(), c);
    fn vx_repeat(&self, n: usize) -> (r: String) ensures r@ == rep(self.sv(), n as nat);
    fn vx_chars_vec(&self) -> (r: Vec<char>) ensures r@ == self.sv(), r@.len() <= 0x7fff_ffff_ffff_ffff;
    fn vx_chars(&self) -> (r: Chars) ensures r@ == self.sv(), r@.len() <= 0x7fff_ffff_ffff_ffff;
    fn vx_parse(&self) -> (r: Result<BigInt, ParseBigIntError>) ensures all_digits(self.sv()) && self.sv().len() > 0 ==> (r matches Ok(b) && b@ == digits_val(self.sv()));
    fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self.sv());
    fn vx_to_owned(&self) -> (r: String) ensures r@ == self.sv();
}
impl VxStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, c: P) -> bool { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, c: P) -> bool { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end_matches(&self, c: char) -> &str { unimplemented!() }
    #[verifier::external_body] fn vx_repeat(&self, n: usize) -> String { unimplemented!() }
    #[verifier::external_body] fn vx_chars_vec(&self) -> Vec<char> { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> Chars { unimplemented!() }
    #[verifier::external_body] fn vx_parse(&self) -> Result<BigInt, ParseBigIntError> { unimplemented!() }
    #[verifier::external_body] fn vx_as_bytes(&self) -> &[u8] { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> String { unimplemented!() }
}
impl VxStr for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    fn vx_starts_with<P: VxPat>(&self, c: P) -> bool { self.as_str().vx_starts_with(c) }
    fn vx_ends_with<P: VxPat>(&self, c: P) -> bool { self.as_str().vx_ends_with(c) }
    fn vx_trim_end_matches(&self, c: char) -> &str { self.as_str().vx_trim_end_matches(c) }
    fn vx_repeat(&self, n: usize) -> String { self.as_str().vx_repeat(n) }
    fn vx_chars_vec(&self) -> Vec<char> { self.as_str().vx_chars_vec() }
    fn vx_chars(&self) -> Chars { self.as_str().vx_chars() }
    fn vx_parse(&self) -> Result<BigInt, ParseBigIntError> { self.as_str().vx_parse() }
    fn vx_as_bytes(&self) -> &[u8] { self.as_str().vx_as_bytes() }
    fn vx_to_owned(&self) -> String { self.clone() }
}
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub open spec fn rep(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { rep(s, (n - 1) as nat) + s } }
pub open spec fn trim_end(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == c { trim_end(s.drop_last(), c) } else { s } }
pub open spec fn is_digit_c(c: char) -> bool { 48 <= c as u32 <= 57 }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit_c(#[trigger] s[i]) }
pub open spec fn digit_of(c: char) -> int { c as u32 as int - 48 }
/// The number a digit string denotes.
pub open spec fn digits_val(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { digits_val(s.drop_last()) * 10 + digit_of(s.last()) } }
pub trait VxChar {
    spec fn cv(&self) -> char;
    fn vx_is_alphabetic(&self) -> (r: bool) ensures r == is_alpha(self.cv());
    fn vx_is_whitespace(&self) -> (r: bool) ensures r == is_ws(self.cv());
    fn vx_is_ascii_digit(&self) -> (r: bool) ensures r == is_digit_c(self.cv());
    fn vx_is_numeric(&self) -> (r: bool) ensures r == is_num_c(self.cv());
    fn vx_is_alphanumeric(&self) -> (r: bool) ensures r == (is_num_c(self.cv()) || is_alpha(self.cv()));
}
impl VxChar for char {
    open spec fn cv(&self) -> char { *self }
    #[verifier::external_body] fn vx_is_alphabetic(&self) -> bool { self.is_alphabetic() }
    #[verifier::external_body] fn vx_is_whitespace(&self) -> bool { self.is_whitespace() }
    #[verifier::external_body] fn vx_is_ascii_digit(&self) -> bool { self.is_ascii_digit() }
    #[verifier::external_body] fn vx_is_numeric(&self) -> bool { self.is_numeric() }
    #[verifier::external_body] fn vx_is_alphanumeric(&self) -> bool { self.is_alphanumeric() }
}
/// Unicode Alphabetic, White_Space and Numeric, as std's char methods decide them.
pub uninterp spec fn is_alpha(c: char) -> bool;
pub uninterp spec fn is_ws(c: char) -> bool;
pub uninterp spec fn is_num_c(c: char) -> bool;
#[verifier::external_body] pub proof fn axiom_ascii(c: char)
    ensures ((c as u32) < 128) ==> is_alpha(c) == (65 <= c as u32 <= 90 || 97 <= c as u32 <= 122),
            ((c as u32) < 128) ==> is_ws(c) == (9 <= c as u32 <= 13 || c as u32 == 32),
            !(is_alpha(c) && is_ws(c)) { }
/// The peekable character iterator over a string: its view is what is left.
#[verifier::external_body] pub struct Chars { x: u8 }
impl View for Chars { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Chars {
    #[verifier::external_body] pub fn peekable(self) -> (r: Peekable<Chars>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Peekable<T> { t: T }
impl View for Peekable<Chars> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Peekable<Chars> {
    #[verifier::external_body] pub fn peek(&self) -> (r: Option<&char>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r is Some && *r->Some_0 == self@[0] { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
}
pub mod mem { use vstd::prelude::*; verus!{ pub fn transmute<T>(t: T) -> (r: T) ensures r == t { t } } }

// ------------------------------------------------------------------ formatting
pub trait VxDisp { spec fn disp(&self) -> Seq<char>; fn vx_disp(&self, s: &mut String) ensures final(s)@ == old(s)@ + self.disp();
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.disp(); }
pub trait VxDbg { spec fn dbg(&self) -> Seq<char>; fn vx_dbg(&self, s: &mut String) ensures final(s)@ == old(s)@ + self.dbg(); }
impl VxDbg for char { uninterp spec fn dbg(&self) -> Seq<char>; #[verifier::external_body] fn vx_dbg(&self, s: &mut String) { unimplemented!() } }
impl VxDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } fn vx_disp(&self, s: &mut String) { s.push_str(self); } fn vx_to_string(&self) -> String { self.vx_to_owned() } }
impl VxDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } fn vx_disp(&self, s: &mut String) { s.push_str(self.as_str()); } fn vx_to_string(&self) -> String { self.clone() } }
impl VxDisp for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } fn vx_disp(&self, s: &mut String) { s.push(*self); } fn vx_to_string(&self) -> String { let mut s = String::new(); s.push(*self); proof { assert(s@ =~= seq![*self]); } s } }
impl VxDisp for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vx_disp(&self, s: &mut String) { unimplemented!() } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
impl VxDisp for BigInt { open spec fn disp(&self) -> Seq<char> { dec(self@) } #[verifier::external_body] fn vx_disp(&self, s: &mut String) { unimplemented!() } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
impl VxDisp for BigRational { open spec fn disp(&self) -> Seq<char> { if self@.d == 1 { dec(self@.n) } else { dec(self@.n) + seq!['/'] + dec(self@.d) } } #[verifier::external_body] fn vx_disp(&self, s: &mut String) { unimplemented!() } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
impl<'a, T: VxDisp + ?Sized> VxDisp for &'a T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } fn vx_disp(&self, s: &mut String) { (**self).vx_disp(s) } fn vx_to_string(&self) -> String { (**self).vx_to_string() } }
impl<T: VxDisp> VxDisp for Box<T> { open spec fn disp(&self) -> Seq<char> { (**self).disp() } fn vx_disp(&self, s: &mut String) { (**self).vx_disp(s) } fn vx_to_string(&self) -> String { (**self).vx_to_string() } }
impl VxDisp for io::Error { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vx_disp(&self, s: &mut String) { unimplemented!() } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
impl VxDisp for ParseIntError { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vx_disp(&self, s: &mut String) { unimplemented!() } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
impl VxDisp for ParseBigIntError { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn vx_disp(&self, s: &mut String) { unimplemented!() } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
/// Decimal notation of an integer.
pub open spec fn dec_nat(n: nat) -> Seq<char> decreases n { if n < 10 { seq![(48 + n as u8) as char] } else { dec_nat(n / 10) + seq![(48 + (n % 10) as u8) as char] } }
pub open spec fn dec(n: int) -> Seq<char> { if n < 0 { seq!['-'] + dec_nat((-n) as nat) } else { dec_nat(n as nat) } }
pub mod fmt {
    use vstd::prelude::*;
    verus! {
    pub struct Error;
    pub struct Formatter { pub buf: String }
    pub type Result = core::result::Result<(), Error>;
    impl Formatter {
        pub fn vx_write(&mut self, s: String) -> (r: Result) ensures final(self).buf@ == old(self).buf@ + s@, r is Ok { self.buf.push_str(s.as_str()); Ok(()) }
        pub fn write_str(&mut self, s: &str) -> (r: Result) ensures final(self).buf@ == old(self).buf@ + s@, r is Ok { self.buf.push_str(s); Ok(()) }
    }
    }
}

// ------------------------------------------------------------------ numbers
#[verifier::external_body] pub struct BigInt { x: u8 }
impl View for BigInt { type V = int; uninterp spec fn view(&self) -> int; }
#[verifier::external_body] pub struct ParseBigIntError { x: u8 }
#[verifier::external_body] pub struct ParseIntError { x: u8 }
impl Clone for BigInt { #[verifier::external_body] fn clone(&self) -> (r: BigInt) ensures r == *self { unimplemented!() } }
impl VxEq<BigInt> for BigInt { open spec fn eq_rel(&self, o: &BigInt) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &BigInt) -> bool { unimplemented!() } }
macro_rules! big_from { ($($t:ty => $f:ident),*) => { verus!{ $(
    impl VxFrom<$t> for BigInt { open spec fn from_rel(t: $t, r: BigInt) -> bool { r@ == t as int } #[verifier::external_body] fn vx_from(t: $t) -> (r: BigInt) { unimplemented!() } }
    impl BigInt { #[verifier::external_body] pub fn $f(&self) -> (r: Option<$t>) ensures r is Some == ($t::MIN <= self@ <= $t::MAX), r matches Some(v) ==> v as int == self@ { unimplemented!() } }
)* } } }
big_from!(usize => to_usize, u8 => to_u8, u16 => to_u16, u32 => to_u32, u64 => to_u64, i8 => to_i8, i16 => to_i16, i32 => to_i32, i64 => to_i64);
impl BigInt {
    #[verifier::external_body] pub fn from_u8(n: u8) -> (r: Option<BigInt>) ensures r is Some && r->Some_0@ == n { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: BigInt) ensures r@ == 1 { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: BigInt) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
}
pub open spec fn ipow(b: int, n: nat) -> int decreases n { if n == 0 { 1 } else { b * ipow(b, (n - 1) as nat) } }
#[verifier::external_body] pub fn pow(b: BigInt, n: usize) -> (r: BigInt) ensures r@ == ipow(b@, n as nat) { unimplemented!() }
/// Truncating remainder.
pub open spec fn trunc_rem(a: int, b: int) -> int { let m = abs_i(a) % abs_i(b); if a < 0 { -m } else { m } }
pub open spec fn abs_i(a: int) -> int { if a < 0 { -a } else { a } }
/// A fraction in lowest terms with a positive denominator.
pub struct Q { pub n: int, pub d: int }
pub open spec fn gcd(a: nat, b: nat) -> nat decreases b { if b == 0 { a } else { gcd(b, a % b) } }
pub open spec fn q_wf(q: Q) -> bool { q.d > 0 && gcd(abs_i(q.n) as nat, q.d as nat) == 1 }
/// n/d in lowest terms, for d != 0.
pub open spec fn rat(n: int, d: int) -> Q { let g = gcd(abs_i(n) as nat, abs_i(d) as nat) as int; let s = if d < 0 { -1int } else { 1 }; Q { n: s * (n / g), d: s * (d / g) } }
#[verifier::external_body] pub struct BigRational { x: u8 }
impl View for BigRational { type V = Q; uninterp spec fn view(&self) -> Q; }
impl Clone for BigRational { #[verifier::external_body] fn clone(&self) -> (r: BigRational) ensures r == *self { unimplemented!() } }
impl VxEq<BigRational> for BigRational { open spec fn eq_rel(&self, o: &BigRational) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &BigRational) -> bool { unimplemented!() } }
/// num-rational keeps every Ratio reduced.
#[verifier::external_body] pub proof fn axiom_ratio_wf(r: BigRational) ensures q_wf(r@) { }
impl BigRational {
    #[verifier::external_body] pub fn new(n: BigInt, d: BigInt) -> (r: BigRational) requires d@ != 0 ensures r@ == rat(n@, d@) { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self@.n == 0) { unimplemented!() }
    #[verifier::external_body] pub fn denom(&self) -> (r: &BigInt) ensures r@ == self@.d { unimplemented!() }
    #[verifier::external_body] pub fn numer(&self) -> (r: &BigInt) ensures r@ == self@.n { unimplemented!() }
    #[verifier::external_body] pub fn is_integer(&self) -> (r: bool) ensures r == (self@.d == 1) { unimplemented!() }
    #[verifier::external_body] pub fn from_integer(n: BigInt) -> (r: BigRational) ensures r@ == (Q { n: n@, d: 1 }) { unimplemented!() }
}
pub open spec fn q_add(a: Q, b: Q) -> Q { rat(a.n * b.d + b.n * a.d, a.d * b.d) }
pub open spec fn q_sub(a: Q, b: Q) -> Q { rat(a.n * b.d - b.n * a.d, a.d * b.d) }
pub open spec fn q_mul(a: Q, b: Q) -> Q { rat(a.n * b.n, a.d * b.d) }
pub open spec fn q_div(a: Q, b: Q) -> Q { rat(a.n * b.d, a.d * b.n) }
macro_rules! ops { ($t:ident, $add:expr, $sub:expr, $mul:expr) => { verus!{
    impl vstd::std_specs::ops::AddSpecImpl for $t { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, rhs: $t) -> bool { true } open spec fn add_spec(self, rhs: $t) -> $t { arbitrary() } }
    impl std::ops::Add for $t { type Output = $t; #[verifier::external_body] fn add(self, o: $t) -> (r: $t) ensures r@ == $add(self@, o@) { unimplemented!() } }
    impl vstd::std_specs::ops::SubSpecImpl for $t { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, rhs: $t) -> bool { true } open spec fn sub_spec(self, rhs: $t) -> $t { arbitrary() } }
    impl std::ops::Sub for $t { type Output = $t; #[verifier::external_body] fn sub(self, o: $t) -> (r: $t) ensures r@ == $sub(self@, o@) { unimplemented!() } }
    impl vstd::std_specs::ops::MulSpecImpl for $t { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, rhs: $t) -> bool { true } open spec fn mul_spec(self, rhs: $t) -> $t { arbitrary() } }
    impl std::ops::Mul for $t { type Output = $t; #[verifier::external_body] fn mul(self, o: $t) -> (r: $t) ensures r@ == $mul(self@, o@) { unimplemented!() } }
} } }
pub open spec fn i_add(a: int, b: int) -> int { a + b }
pub open spec fn i_sub(a: int, b: int) -> int { a - b }
pub open spec fn i_mul(a: int, b: int) -> int { a * b }
ops!(BigInt, i_add, i_sub, i_mul);
ops!(BigRational, q_add, q_sub, q_mul);
impl vstd::std_specs::ops::RemSpecImpl for BigInt { open spec fn obeys_rem_spec() -> bool { false } open spec fn rem_req(self, rhs: BigInt) -> bool { rhs@ != 0 } open spec fn rem_spec(self, rhs: BigInt) -> BigInt { arbitrary() } }
impl std::ops::Rem for BigInt { type Output = BigInt; #[verifier::external_body] fn rem(self, o: BigInt) -> (r: BigInt) ensures r@ == trunc_rem(self@, o@) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl for BigRational { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, rhs: BigRational) -> bool { rhs@.n != 0 } open spec fn div_spec(self, rhs: BigRational) -> BigRational { arbitrary() } }
impl std::ops::Div for BigRational { type Output = BigRational; #[verifier::external_body] fn div(self, o: BigRational) -> (r: BigRational) ensures r@ == q_div(self@, o@) { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for BigInt { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> BigInt { arbitrary() } }
impl std::ops::Neg for BigInt { type Output = BigInt; #[verifier::external_body] fn neg(self) -> (r: BigInt) ensures r@ == -self@ { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for BigRational { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> BigRational { arbitrary() } }
impl std::ops::Neg for BigRational { type Output = BigRational; #[verifier::external_body] fn neg(self) -> (r: BigRational) ensures r@ == (Q { n: -self@.n, d: self@.d }) { unimplemented!() } }

// ------------------------------------------------------------------ identity
/// Ids handed out by the counter; a sentinel is one of the four objects that stand for an include keyword.
pub uninterp spec fn is_generated(id: usize) -> bool;
pub uninterp spec fn sentinel_tag(id: usize) -> int;
#[verifier::external_body] pub proof fn axiom_sentinel(a: usize, b: usize) ensures sentinel_tag(a) == sentinel_tag(b) && sentinel_tag(a) != 0 ==> a == b { }
#[verifier::external_body] pub struct AtomicUsize { x: u8 }
/// The one counter of the process that ids come from (the crate's CUR_ID).
pub uninterp spec fn the_counter(a: AtomicUsize) -> bool;
pub enum Ordering { Relaxed, SeqCst, Acquire, Release, AcqRel }
impl AtomicUsize {
    #[verifier::external_body] pub fn new(n: usize) -> (r: AtomicUsize) { unimplemented!() }
    /// A counter that only ever grows by one per id hands out each id once (2^64 ids are never used up).
    #[verifier::external_body] pub fn fetch_add(&self, n: usize, o: Ordering) -> (r: usize) ensures n == 1 && the_counter(*self) ==> is_generated(r) && sentinel_tag(r) == 0 { unimplemented!() }
}

// ------------------------------------------------------------------ maps and sets
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { k: K, v: V }
impl<K: View, V> View for HashMap<K, V> { type V = Map<K::V, V>; uninterp spec fn view(&self) -> Map<K::V, V>; }
impl<K: View, V> HashMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>) ensures (match r { Some(v) => self@.dom().contains(k@) && *v == self@[k@], None => !self@.dom().contains(k@) }) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
}
impl<K: View, V> VxDefault for HashMap<K, V> { open spec fn def_rel(r: HashMap<K, V>) -> bool { r@ == Map::<K::V, V>::empty() } fn vx_default() -> (r: Self) { HashMap::new() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] pub struct HashSet<K> { k: K }
impl<K: View> View for HashSet<K> { type V = Set<K::V>; uninterp spec fn view(&self) -> Set<K::V>; }
impl<K: View> HashSet<K> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: bool) ensures final(self)@ == old(self)@.remove(k@), r == old(self)@.contains(k@) { unimplemented!() }
}
impl<K: View> VxDefault for HashSet<K> { open spec fn def_rel(r: HashSet<K>) -> bool { r@ == Set::<K::V>::empty() } fn vx_default() -> (r: Self) { HashSet::new() } }

// ------------------------------------------------------------------ files and paths (a stable file system)
pub mod io { use vstd::prelude::*; verus!{ #[verifier::external_body] pub struct Error { x: u8 } pub type Result<T> = core::result::Result<T, Error>; } }
/// What reading the file at this path gives: its text, or the message of the error.
pub uninterp spec fn fs_read(path: Seq<char>) -> Result<Seq<char>, Seq<char>>;
pub uninterp spec fn fs_wrote(path: Seq<char>, bytes: Seq<u8>) -> bool;
pub uninterp spec fn file_path(f: File) -> Seq<char>;
#[verifier::external_body] pub struct File { x: u8 }
#[verifier::external_body] pub struct Metadata { x: u8 }
impl Metadata { #[verifier::external_body] pub fn len(&self) -> u64 { unimplemented!() } }
impl File {
    #[verifier::external_body] pub fn open(path: &str) -> (r: io::Result<File>) ensures r matches Ok(f) ==> file_path(f) == path@, r matches Err(e) ==> fs_read(path@) == Err::<Seq<char>, Seq<char>>(e.disp()) { unimplemented!() }
    #[verifier::external_body] pub fn create(path: &str) -> (r: io::Result<File>) ensures r matches Ok(f) ==> file_path(f) == path@ { unimplemented!() }
    #[verifier::external_body] pub fn metadata(&self) -> (r: io::Result<Metadata>) ensures r matches Err(e) ==> fs_read(file_path(*self)) == Err::<Seq<char>, Seq<char>>(e.disp()) { unimplemented!() }
    #[verifier::external_body] pub fn read_to_string(&mut self, s: &mut String) -> (r: io::Result<usize>)
        ensures r is Ok ==> fs_read(file_path(*old(self))) is Ok && final(s)@ == old(s)@ + fs_read(file_path(*old(self)))->Ok_0, r matches Err(e) ==> fs_read(file_path(*old(self))) == Err::<Seq<char>, Seq<char>>(e.disp()) { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>) ensures r is Ok ==> fs_wrote(file_path(*old(self)), b@) { unimplemented!() }
}
#[verifier::external_body] pub struct PathV { x: u8 }
/// Path operations, named but not interpreted: a path as text, its parent directory, joining, its text,
/// whether it names a regular file, its canonical absolute form.
pub uninterp spec fn p_of(s: Seq<char>) -> PathV;
pub uninterp spec fn p_parent(p: PathV) -> Option<PathV>;
pub uninterp spec fn p_join(a: PathV, b: PathV) -> PathV;
pub uninterp spec fn p_str(p: PathV) -> Option<Seq<char>>;
pub uninterp spec fn p_is_file(p: PathV) -> bool;
pub uninterp spec fn p_canon(p: PathV) -> Option<PathV>;
#[verifier::external_body] pub struct Path { x: u8 }
pub type PathBuf = Path;
impl View for Path { type V = PathV; uninterp spec fn view(&self) -> PathV; }
pub trait VxPath { spec fn pv(&self) -> PathV; fn vx_as_path(&self) -> (r: &Path) ensures r@ == self.pv(); }
impl VxPath for Path { open spec fn pv(&self) -> PathV { self@ } fn vx_as_path(&self) -> &Path { self } }
impl VxPath for str { open spec fn pv(&self) -> PathV { p_of(self@) } #[verifier::external_body] fn vx_as_path(&self) -> &Path { unimplemented!() } }
impl VxPath for String { open spec fn pv(&self) -> PathV { p_of(self@) } fn vx_as_path(&self) -> &Path { self.as_str().vx_as_path() } }
impl<'a, T: VxPath + ?Sized> VxPath for &'a T { open spec fn pv(&self) -> PathV { (**self).pv() } fn vx_as_path(&self) -> &Path { (**self).vx_as_path() } }
impl Path {
    #[verifier::external_body] pub fn new<S: VxPath + ?Sized>(s: &S) -> (r: &Path) ensures r@ == s.pv() { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Path>) ensures (match r { Some(p) => p_parent(self@) == Some(p@), None => p_parent(self@) is None }) { unimplemented!() }
    #[verifier::external_body] pub fn join<S: VxPath>(&self, o: S) -> (r: PathBuf) ensures r@ == p_join(self@, o.pv()) { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn as_path(&self) -> (r: &Path) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == p_is_file(self@) { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures (match r { Some(s) => p_str(self@) == Some(s@), None => p_str(self@) is None }) { unimplemented!() }
    #[verifier::external_body] pub fn canonicalize(&self) -> (r: io::Result<PathBuf>) ensures (match r { Ok(p) => p_canon(self@) == Some(p@), Err(_) => p_canon(self@) is None }) { unimplemented!() }
}
/// A path whose content can be read names a file, so it is neither empty nor a root.
#[verifier::external_body] pub proof fn axiom_file_has_parent(path: Seq<char>) ensures fs_read(path) is Ok ==> p_parent(p_of(path)) is Some { }

/// The text of a path names that path.
#[verifier::external_body] pub proof fn axiom_path_text(p: PathV) ensures p_str(p) matches Some(s) ==> p_of(s) == p { }
