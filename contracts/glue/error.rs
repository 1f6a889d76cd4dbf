/// The text of an error of the data model.
pub open spec fn over_disp(e: OverError) -> Seq<char> {
    match e {
        OverError::ArrOutOfBounds(i) => m_arr_bounds(i as int),
        OverError::TupOutOfBounds(i) => m_tup_bounds(i as int),
        OverError::TypeMismatch(a, b) => m_mismatch(crate::types::ty(a), crate::types::ty(b)),
        OverError::ArrTypeMismatch(a, b) => "Arr inner types do not match: expected "@ + type_disp(crate::types::ty(a)) + ", found "@ + type_disp(crate::types::ty(b)),
        OverError::FieldNotFound(f) => "Field not found: \""@ + f@ + "\""@,
        OverError::InvalidFieldName(f) => "Invalid field name: \""@ + f@ + "\""@,
        OverError::ParseError(m) => m@,
        OverError::IoError(m) => m@,
        OverError::NoParentFound => "No parent found for this obj"@,
        OverError::TupTypeMismatch(a, b, i) => "Tup inner types do not match at index "@ + dec(i as int) + ": expected "@ + type_disp(crate::types::ty(a)) + ", found "@ + type_disp(crate::types::ty(b)),
    }
}
impl VxDisp for OverError { open spec fn disp(&self) -> Seq<char> { over_disp(*self) } #[verifier::external_body] fn vx_disp(&self, s: &mut String) { unimplemented!() } #[verifier::external_body] fn vx_to_string(&self) -> String { unimplemented!() } }
