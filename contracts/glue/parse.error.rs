use crate::types::ty;
/// What an error says, without the representation.
pub open spec fn ek(k: ParseErrorKind) -> K {
    match k {
        ParseErrorKind::BinaryOperatorError(a, b, op, l, c) => K::BinOp(ty(a), ty(b), op, l as int, c as int),
        ParseErrorKind::CyclicInclude(s, l, c) => K::Cyclic(s@, l as int, c as int),
        ParseErrorKind::DuplicateField(s, l, c) => K::DupField(s@, l as int, c as int),
        ParseErrorKind::DuplicateGlobal(s, l, c) => K::DupGlobal(s@, l as int, c as int),
        ParseErrorKind::ExpectedType(a, b, l, c) => K::Expected(ty(a), ty(b), l as int, c as int),
        ParseErrorKind::GlobalNotFound(s, l, c) => K::NoGlobal(s@, l as int, c as int),
        ParseErrorKind::InvalidIndex(i, l, c) => K::BadIndex(i@, l as int, c as int),
        ParseErrorKind::InvalidClosingBracket(b, ch, l, c) => K::Closing(b, ch, l as int, c as int),
        ParseErrorKind::InvalidDot(t, l, c) => K::BadDot(ty(t), l as int, c as int),
        ParseErrorKind::InvalidEscapeChar(ch, l, c) => K::BadEscape(ch, l as int, c as int),
        ParseErrorKind::InvalidFieldChar(ch, l, c) => K::FieldChar(ch, l as int, c as int),
        ParseErrorKind::InvalidFieldName(s, l, c) => K::FieldName(s@, l as int, c as int),
        ParseErrorKind::InvalidIncludePath(s, l, c) => K::IncPath(s@, l as int, c as int),
        ParseErrorKind::InvalidIncludeToken(t, l, c) => K::IncToken(ty(t), l as int, c as int),
        ParseErrorKind::InvalidNumeric(l, c) => K::Numeric(l as int, c as int),
        ParseErrorKind::InvalidValue(s, l, c) => K::BadValue(s@, l as int, c as int),
        ParseErrorKind::InvalidValueChar(ch, l, c) => K::ValueChar(ch, l as int, c as int),
        ParseErrorKind::MaxDepth(l, c) => K::MaxDepth(l as int, c as int),
        ParseErrorKind::UnaryOperatorError(t, op, l, c) => K::UnOp(ty(t), op, l as int, c as int),
        ParseErrorKind::UnexpectedEnd(l) => K::End(l as int),
        ParseErrorKind::VariableNotFound(s, l, c) => K::NoVar(s@, l as int, c as int),
        ParseErrorKind::IoError(s) => K::Io(s@),
        ParseErrorKind::OverError(s) => K::Over(s@),
        ParseErrorKind::ParseIntError(s) => K::ParseInt(s@),
        _ => K::Other,
    }
}
pub open spec fn pe(e: ParseError) -> PErr { PErr { file: match e.file { Some(f) => Some(f@), None => None }, kind: ek(e.kind) } }
impl VxDisp for ParseError { open spec fn disp(&self) -> Seq<char> { pe_disp(pe(*self)) } #[verifier::external_body] fn vx_disp(&self, s: &mut String) { unimplemented!() } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
