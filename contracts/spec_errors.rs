// ------------------------------------------------------------------ what an error says
pub open spec fn un_char(op: UnaryOp) -> char { match op { UnaryOp::Plus => '+', UnaryOp::Minus => '-' } }
pub open spec fn bin_char(op: BinaryOp) -> char { match op { BinaryOp::Plus => '+', BinaryOp::Minus => '-', BinaryOp::Mult => '*', BinaryOp::Div => '/', BinaryOp::Mod => '%' } }
pub open spec fn quoted(c: char) -> Seq<char> { "'"@ + seq![c] + "'"@ }
pub open spec fn k_disp(k: K) -> Seq<char> {
    match k {
        K::BinOp(a, b, op, l, co) => "Could not apply operator "@ + quoted(bin_char(op)) + " on types "@ + type_disp(a) + " and "@ + type_disp(b) + " at line "@ + dec(l) + ", column "@ + dec(co),
        K::Cyclic(s, l, co) => "Tried to cyclically include file \""@ + s + "\" at line "@ + dec(l) + ", column "@ + dec(co),
        K::DupField(s, l, co) => "Duplicate field \""@ + s + "\" at line "@ + dec(l) + ", column "@ + dec(co),
        K::DupGlobal(s, l, co) => "Duplicate global \""@ + s + "\" at line "@ + dec(l) + ", column "@ + dec(co),
        K::Expected(a, b, l, co) => "Expected "@ + type_disp(a) + " at line "@ + dec(l) + ", column "@ + dec(co) + "; found "@ + type_disp(b),
        K::NoGlobal(s, l, co) => "Global \""@ + s + "\" at line "@ + dec(l) + ", column "@ + dec(co) + " could not be found"@,
        K::BadIndex(i, l, co) => "Invalid index "@ + dec(i) + " at line "@ + dec(l) + ", column "@ + dec(co),
        K::Closing(b, ch, l, co) => "Invalid closing bracket '"@ + seq![ch] + "' at line "@ + dec(l) + ", column "@ + dec(co) + "; expected "@ + (match b { Some(x) => quoted(x), None => "none"@ }),
        K::BadDot(t, l, co) => "Invalid use of dot notation on value of type "@ + type_disp(t) + " at line "@ + dec(l) + ", column "@ + dec(co) + "; value must be an Obj, Arr, or Tup."@,
        K::BadEscape(ch, l, co) => "Invalid escape character "@ + ch.dbg() + " following backslash at line "@ + dec(l) + ", column "@ + dec(co) + ". If you meant to write a backslash, use '\\\\'"@,
        K::FieldChar(ch, l, co) => "Invalid character "@ + ch.dbg() + " for field at line "@ + dec(l) + ", column "@ + dec(co),
        K::FieldName(s, l, co) => "Invalid field name \""@ + s + "\" at line "@ + dec(l) + ", column "@ + dec(co),
        K::IncPath(s, l, co) => "Invalid include path \""@ + s + "\" at line "@ + dec(l) + ", column "@ + dec(co),
        K::IncToken(t, l, co) => "Invalid value of type \""@ + type_disp(t) + "\" at line "@ + dec(l) + ", column "@ + dec(co) + "; must be either a Str value or one of the tokens \"Obj\", \"Arr\", \"Tup\", or \"Str\""@,
        K::Numeric(l, co) => "Invalid numeric value at line "@ + dec(l) + ", column "@ + dec(co),
        K::BadValue(s, l, co) => "Invalid value \""@ + s + "\" at line "@ + dec(l) + ", column "@ + dec(co),
        K::ValueChar(ch, l, co) => "Invalid character "@ + ch.dbg() + " for value at line "@ + dec(l) + ", column "@ + dec(co),
        K::MaxDepth(l, co) => "Exceeded maximum recursion depth ("@ + dec(64) + ") at line "@ + dec(l) + ", column "@ + dec(co),
        K::UnOp(t, op, l, co) => "Could not apply operator "@ + quoted(un_char(op)) + " on type "@ + type_disp(t) + " at line "@ + dec(l) + ", column "@ + dec(co),
        K::End(l) => "Unexpected end at line "@ + dec(l),
        K::NoVar(s, l, co) => "Variable \""@ + s + "\" at line "@ + dec(l) + ", column "@ + dec(co) + " could not be found"@,
        K::Io(m) => m, K::Over(m) => m, K::ParseInt(m) => m,
        K::Other => Seq::empty(),
    }
}
/// The text of a parse error: the file, if any, then what is wrong and where.
pub open spec fn pe_disp(e: PErr) -> Seq<char> { match e.file { Some(f) => f + ": "@ + k_disp(e.kind), None => k_disp(e.kind) } }
