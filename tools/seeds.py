PRELUDE = r'''#[allow(unused_imports)]
#[macro_use]
extern crate over;
#[allow(unused_imports)]
use num_bigint::BigInt;
#[allow(unused_imports)]
use num_rational::BigRational;
#[allow(unused_imports)]
use over::{arr::Arr, obj::{Obj, Pair}, tup::Tup, types::Type, value::Value, OverError, ReferenceType};
#[allow(dead_code)]
fn parse(s: &str) -> Result<Obj, String> { s.parse::<Obj>().map_err(|e| e.to_string()) }
#[allow(dead_code)]
fn value(s: &str) -> Value { parse(&format!("v: {}\n", s)).unwrap().get("v").unwrap() }
#[allow(dead_code)]
fn file(name: &str, text: &str) {
    if let Some(d) = std::path::Path::new(name).parent() { std::fs::create_dir_all(d).unwrap(); }
    std::fs::write(name, text).unwrap();
}
#[allow(unused_macros)]
macro_rules! check { ($c:expr, $($t:tt)*) => { if !$c { eprintln!($($t)*); std::process::exit(1); } } }

'''
SEEDS = {}
def seed(sid, edits, needs, breaks, demo):
    SEEDS[sid] = dict(property=sid[:3], edits=edits, needs=needs, breaks=breaks, demo=demo)

P = 'parse/parser.rs'
seed('C01a', [('types.rs', '''                                    if !has_any && any {
                                        has_any = any;
                                    }
''', '''                                    has_any = any;
''')], 'tuple types whose last component is free of Any while an earlier one contains it',
'the flag of the most specific type only reflects the last tuple component', r'''
fn main() {
    use Type::*;
    let a = Tup(vec![Arr(Box::new(Any)), Int]);
    let (t, any) = Type::most_specific(&a, &a).unwrap();
    check!(t.is(&a) && any, "flag is {} for {}", any, t);
}
''')
seed('C01b', [('types.rs', '                    tvec1 == tvec2\n', '                    tvec1.iter().zip(tvec2.iter()).all(|(t1, t2)| t1 == t2)\n')],
'two tuple types one of which is a prefix of the other', 'tuple types of different length compare equal', r'''
fn main() {
    use Type::*;
    check!(Tup(vec![Int]) != Tup(vec![Int, Str]), "prefix tuples equal");
    check!(Tup(vec![]) != Tup(vec![Str]), "empty tuple equal to a non-empty one");
    check!(Tup(vec![Any, Str]) == Tup(vec![Int, Str]), "compatible tuples differ");
}
''')
seed('C02a', [(P, '        } else if tcur != tnew {\n            return parse_err(\n', '        } else if !tcur.is(&tnew) {\n            return parse_err(\n', 0)],
'an array file whose type is settled before an element of a less specific type (an empty array) follows',
'an included array file with a later, less specific element is rejected', r'''
fn main() {
    file("a.over", "[1] [] [2]\n");
    file("m.over", "a: <Arr \"a.over\">\nb: [[1] [] [2]]\n");
    let o = match Obj::from_file("m.over") { Ok(o) => o, Err(e) => { eprintln!("{}", e); std::process::exit(1) } };
    check!(o.get_arr("a").unwrap().inner_type().is(&Type::Arr(Box::new(Type::Int))), "type");
    check!(o.get("a") == o.get("b"), "different");
}
''')
seed('C02b', [(P, '                        Some((t, _)) => {\n                            let (arr1', '                        Some(_) => {\n                            let (arr1'),
              (P, 'let arr = if let Arr(ref t) = t {', 'let arr = if let Arr(ref t) = type1 {')],
'the left operand of an array + has a less specific type than the right one', 'the sum carries the type of its left operand', r'''
fn main() {
    let a = value("[]+[1 2]").get_arr().unwrap();
    check!(a.len() == 2 && a.inner_type().is(&Type::Int), "type {}", a.inner_type());
    let a = value("[[]]+[[\"a\"]]").get_arr().unwrap();
    check!(a.inner_type().is(&Type::Arr(Box::new(Type::Str))), "type {}", a.inner_type());
}
''')
seed('C03a', [('obj.rs', '''        } else if !(inner.parent.is_none() && other_inner.parent.is_none()) {
            return false;
        }
''', '''        } else if inner.parent.is_some() && !inner.pairs.is_empty() {
            return false;
        }
''')], 'comparing an object with a parent to one without, the parentless one on the left', 'an object without parent equals one that has a parent', r'''
fn main() {
    let p = parse("x: 1").unwrap();
    let a = Obj::from_pairs(vec![Pair("a".into(), 1.into())], None).unwrap();
    let b = Obj::from_pairs(vec![Pair("a".into(), 1.into())], Some(p)).unwrap();
    check!(a != b, "a == b");
    check!(b != a, "b == a");
}
''')
seed('C03b', [('arr.rs', '        if self.inner.inner_t != other.inner.inner_t {\n', '        if !self.inner.inner_t.is(&other.inner.inner_t) {\n')],
'two arrays with equal elements whose recorded types differ in how specific they are', 'arrays with equal elements but differently specific types are unequal', r'''
fn main() {
    let a = Arr::from_values_unchecked(vec![1.into(), 2.into()], Type::Any);
    let b = Arr::from_values(vec![1.into(), 2.into()]).unwrap();
    check!(a == b, "differ");
    let c = parse("a: [[[]] [[1]]]\nb: a.0\nc: [[]]").unwrap();
    check!(c.get("b") == c.get("c"), "differ");
}
''')
seed('C04a', [('value.rs', 'impl_from!(u64, Int);\n', '''impl From<u64> for Value {
    fn from(inner: u64) -> Self {
        Self::Int((inner as i64).into())
    }
}
''')], 'a u64 above i64::MAX', 'a large u64 turns into a negative Int', r'''
fn main() {
    for x in vec![0u64, 1, i64::max_value() as u64, i64::max_value() as u64 + 1, u64::max_value()] {
        let v: Value = x.into();
        check!(v == x && v.get_int().unwrap() == BigInt::from(x), "{} became {}", x, v);
    }
}
''')
seed('C04b', [('tup.rs', '        if index >= self.inner.values.len() {', '        if index > self.inner.values.len() {')],
'indexing exactly at the length', 'Tup::get panics at index == len instead of returning out-of-bounds', r'''
fn main() {
    let t = Tup::from_values(vec![1.into(), "a".into()]);
    check!(t.get(1).is_ok(), "1");
    check!(t.get(2) == Err(OverError::TupOutOfBounds(2)), "2");
}
''')
seed('C05a', [('obj.rs', '                Some(ref parent) => parent.get_with_source(field),\n', """                Some(ref parent) if self.len() > parent.len() => {
                    parent.get(field).map(|value| (value, parent.clone()))
                }
                Some(ref parent) => parent.get_with_source(field),
""")],
'a field of a grandparent, looked up in an object with more fields than its parent', 'get_with_source names the parent as the source', r"""
fn main() {
    let g = parse("x: 1").unwrap();
    let p = Obj::from_pairs(vec![Pair("y".into(), 2.into())], Some(g.clone())).unwrap();
    let o = Obj::from_pairs(vec![Pair("z".into(), 2.into()), Pair("t".into(), 2.into())], Some(p.clone())).unwrap();
    let (v, s) = o.get_with_source("y").unwrap();
    check!(v == 2 && s.ptr_eq(&p), "y");
    let (v, s) = o.get_with_source("x").unwrap();
    check!(v == 1 && s.ptr_eq(&g), "x found in the wrong object");
}
""")
seed('C05c', [('obj.rs', '            .any(|Pair(pair_field, _)| field == pair_field)\n', "            .any(|Pair(pair_field, _)| field == pair_field || pair_field.trim_end_matches('_') == field)\n")],
'an object with a field x_ but no x', 'contains reports a field the object does not have', r"""
fn main() {
    let o = parse("x_: 1 _: 2").unwrap();
    check!(o.contains("x_") && !o.contains("x") && !o.contains(""), "contains");
}
""")
seed('C05b', [('obj.rs', '                Some(ref parent) => parent.get(field),\n', '''                Some(ref parent) => parent
                    .iter()
                    .find(|Pair(ref field_name, _)| field_name == field)
                    .map(|Pair(_, value)| value.clone()),
''')], 'a field defined by a grandparent', 'get only looks one level up the parent chain', r'''
fn main() {
    let g = parse("x: 1").unwrap();
    let p = Obj::from_pairs(vec![Pair("y".into(), 2.into())], Some(g)).unwrap();
    let o = Obj::from_pairs(vec![], Some(p)).unwrap();
    check!(o.get("y").map_or(false, |v| v == 2), "y");
    check!(o.get("x").map_or(false, |v| v == 1), "x not found");
}
''')
seed('C06a', [('obj.rs', '            ch if parse::util::is_digit(ch) => !first,\n', '            ch if ch.is_numeric() => !first,\n')],
'a field name with a non-ASCII numeric character', 'names such as "x²" are accepted', r'''
fn main() {
    check!(Obj::is_valid_field("x2"), "x2");
    check!(!Obj::is_valid_field("x\u{b2}"), "x² accepted");
    check!(parse("x\u{664}: 1").is_err(), "x٤ accepted");
}
''')
seed('C06b', [('parse/util.rs', '"Obj" | "Str" | "Arr" | "Tup" => true', '"Obj" | "Str" | "Arr" => true')],
'a field named Tup', 'the reserved word Tup is accepted as a field name', r'''
fn main() {
    for n in ["null", "true", "false", "Obj", "Str", "Arr", "Tup", "@"].iter() {
        check!(parse(&format!("{}: 1", n)).is_err(), "{} accepted", n);
    }
    check!(parse("Tups: 1").is_ok(), "Tups");
}
''')
seed('C07a', [('parse/format.rs', '    let mut string = String::with_capacity(s.len());\n\n    for ch', '''    // Nothing to escape in most strings.
    if !s.contains('"') {
        return String::from(s);
    }

    let mut string = String::with_capacity(s.len());

    for ch''')], 'writing a string with a backslash and no quotation mark', 'the backslash is not escaped when written', r'''
fn main() {
    for s in ["a\\b", "a\\n", "\\", "\"\\", "x\ny\tz$'"].iter() {
        let o = Obj::from_pairs(vec![Pair("s".into(), (*s).into())], None).unwrap();
        let back = parse(&o.write_to_string());
        check!(back == Ok(o), "{:?} read back as {:?}", s, back);
    }
}
''')
seed('C07b', [(P, "                        '\\\\' => escape = true,\n", "                        '\\\\' => escape = true,\n                        '\\r' if stream.peek() == Some('\\n') => (),\n")],
'a string literal containing a carriage return directly before a newline', 'the carriage return is dropped', r'''
fn main() {
    check!(value("\"a\r\nb\"") == "a\r\nb", "CRLF");
    check!(value("\"a\rb\nc\"") == "a\rb\nc", "CR and LF");
}
''')
seed('C08a', [(P, '        let i: BigInt = s1.parse()?;\n        Ok(i.into())\n', '''        // Most integers are small enough to do without a `BigInt` while parsing.
        if s1.len() <= 19 {
            return Ok(s1.parse::<i64>()?.into());
        }

        let i: BigInt = s1.parse()?;
        Ok(i.into())
''')], 'a 19-digit integer above i64::MAX', 'such a literal is rejected', r'''
fn main() {
    for s in ["0", "9223372036854775807", "9223372036854775808", "9999999999999999999", "10000000000000000000"].iter() {
        let b: BigInt = s.parse().unwrap();
        match parse(&format!("v: {}", s)) {
            Ok(o) => check!(o.get_int("v").unwrap() == b, "{}", s),
            Err(e) => { eprintln!("{}: {}", s, e); std::process::exit(1) }
        }
    }
}
''')
seed('C08b', [('parse/util.rs', '    let denom = pow(BigInt::from_u8(10).unwrap(), dec_len);\n', '''    let denom = if dec_len <= 20 {
        BigInt::from(std::iter::repeat(10u64).take(dec_len).fold(1u64, |a, b| a.wrapping_mul(b)))
    } else {
        pow(BigInt::from_u8(10).unwrap(), dec_len)
    };
''')], 'a literal with exactly 20 decimals', 'the denominator wraps around', r'''
fn main() {
    for n in 1..30 {
        let v = value(&format!("0.{}7", "0".repeat(n - 1)));
        let want = BigRational::new(7.into(), num_traits::pow(BigInt::from(10), n));
        check!(v == want, "{} decimals: {}", n, v);
    }
}
''')
seed('C09a', [(P, '                (val1.get_int().unwrap() % int2).into()\n', '                let int1 = val1.get_int().unwrap();\n                (((int1 % &int2) + &int2) % &int2).into()\n')],
'the remainder of operands with different signs', 'the remainder takes the sign of the divisor', r'''
fn main() {
    check!(value("7%3") == 1, "7%3");
    check!(value("-7%3") == -1, "-7%3 = {}", value("-7%3"));
    check!(value("7%-3") == 1, "7%-3 = {}", value("7%-3"));
    check!(value("-7%-3") == -1, "-7%-3 = {}", value("-7%-3"));
}
''')
seed('C09b', [(P, '                BigRational::new(int1, int2).into()\n', '''                let frac = BigRational::new(int1, int2);
                // A negative whole quotient needs no fraction.
                if frac.is_integer() && frac < BigRational::zero() {
                    frac.to_integer().into()
                } else {
                    frac.into()
                }
''')], 'dividing two integers with a negative whole quotient', 'the quotient is an Int instead of a Frac', r'''
fn main() {
    check!(value("6/3").get_type().is(&Type::Frac), "6/3");
    check!(value("-6/3").get_type().is(&Type::Frac), "-6/3 is {}", value("-6/3").get_type());
    check!(value("-6/4").get_type().is(&Type::Frac), "-6/4");
}
''')
seed('C10a', [(P, "        '[' => parse_arr(&mut stream, obj_pairs, &mut globals, included, depth + 1)?,\n", "        '[' => parse_arr(&mut stream, obj_pairs, &mut globals.clone(), included, depth + 1)?,\n")],
'a global defined inside an object inside an array and used after the array', 'globals defined inside an array are lost when it ends', r"""
fn main() {
    match parse("@a: 1\no: [{ @b: 2 x: @a }]\ny: @b") {
        Ok(o) => check!(o.get("y").unwrap() == 2 && o.len() == 2, "wrong"),
        Err(e) => { eprintln!("{}", e); std::process::exit(1) }
    }
    check!(parse("o: [{ @b: 2 }]\n@b: 3").is_err(), "duplicate global accepted");
}
""")
seed('C10b', [(P, '            if parent.is_some() {\n', '            if parent.is_some() && !obj_pairs.is_empty() {\n')],
"a second '^' before any field", "a second parent silently replaces the first", r'''
fn main() {
    check!(parse("a: 1 ^: {} ^: {}").is_err(), "after a field");
    check!(parse("o: { ^: { a: 1 } }").is_ok(), "one parent");
    check!(parse("o: { ^: { a: 1 } ^: { a: 2 } }").is_err(), "duplicate parent accepted");
}
''')
seed('C11a', [(P, '''                    Value::Int(int) => match int.to_usize() {
                        Some(index) => tup
''', '''                    Value::Int(int) => match int.to_u8().map(usize::from) {
                        Some(index) => tup
''')], 'a tuple index of 256 or more', 'it is rejected as too large', r'''
fn main() {
    for n in [1usize, 255, 256, 257, 300].iter() {
        let items: Vec<String> = (0..*n).map(|i| i.to_string()).collect();
        let s = format!("t: ({})\na: [{}]\nx: a.{}\ny: t.{}", items.join(" "), items.join(" "), n - 1, n - 1);
        match parse(&s) {
            Ok(o) => check!(o.get("x").unwrap() == n - 1 && o.get("y").unwrap() == n - 1, "wrong element"),
            Err(e) => { eprintln!("{}: {}", n, e); std::process::exit(1) }
        }
    }
}
''')
seed('C11b', [(P, 'match obj_pairs.iter().find(|Pair(ref field, _)| field == var) {', 'match obj_pairs.iter().rev().find(|Pair(ref field, _)| field == var) {')],
'dot access to a field that both an object and its ancestor define', 'the definition of the farthest ancestor wins', r'''
fn main() {
    let o = parse("@p: { x: 1 y: 2 }\no: { ^: @p x: 3 }\na: o.x\nb: o.y").unwrap();
    check!(o.get("b").unwrap() == 2, "b");
    check!(o.get("a").unwrap() == 3, "a is {}", o.get("a").unwrap());
}
''')
seed('C12a', [(P, """            line,
            col,
            depth + 1,
            cur_brace,
            false,
        )?,
        None => return parse_err(stream.file(), UnexpectedEnd(line)),""", """            line,
            col,
            depth,
            cur_brace,
            false,
        )?,
        None => return parse_err(stream.file(), UnexpectedEnd(line)),""")],
'a value behind more than 64 signs', 'the nesting of unary operators is not counted', r"""
fn main() {
    check!(parse(&format!("v: {}1", "-".repeat(40))).is_ok(), "40 signs");
    check!(parse(&format!("v: {}1", "-+".repeat(40))).is_err(), "80 signs accepted");
    check!(parse(&format!("v: {}1", "-".repeat(200))).is_err(), "200 signs accepted");
}
""")
seed('C12c', [(P, """    // Check depth.
    if depth > MAX_DEPTH {
        return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
    }

    // We must already be at a '['.""", """    // Check depth.
    if depth >= MAX_DEPTH {
        return parse_err(stream.file(), MaxDepth(stream.line(), stream.col()));
    }

    // We must already be at a '['.""")],
'an array nested exactly at the limit', 'nesting up to the limit is rejected', r"""
fn main() {
    let nest = |a: &str, b: &str, n: usize| parse(&format!("v: {}{}", a.repeat(n), b.repeat(n))).is_ok();
    let mut k = 0;
    while nest("(", ")", k + 1) { k += 1; }
    check!(k >= 60 && k < 70, "tuples to level {}", k);
    check!(nest("[", "]", k), "an array at level {} is rejected", k);
    check!(!nest("[", "]", k + 1), "an array at level {} is accepted", k + 1);
}
""")
seed('C12b', [(P, '                if frac2.is_zero() {\n                    return parse_err(stream.file(), InvalidNumeric(line, col));\n                }\n', '                if frac2.is_zero() && val1.get_type() == val2.get_type() && frac1.is_zero() {\n                    return parse_err(stream.file(), InvalidNumeric(line, col));\n                }\n')],
'a non-zero fraction divided by a zero fraction', 'the division panics', r'''
fn main() {
    for s in ["0.0/0.0", "1/0", "1.5/0.0", "1.5/0", "1/0.0", "1%0"].iter() {
        check!(parse(&format!("v: {}", s)).is_err(), "{}", s);
    }
}
''')
seed('C13a', [(P, "                    if ch.unwrap() == '\\n' {", "                    if ch.unwrap() == '\\n' || ch == Some('\\r') {")],
'a carriage return inside a comment that is not followed by a newline', 'the comment ends there', r'''
fn main() {
    check!(parse("a: 1 # x\r\nb: 2").map_or(false, |o| o.len() == 2), "CRLF");
    check!(parse("a: 1 # x\rb: 2\nc: 3").map_or(false, |o| o.len() == 2 && o.contains("c")), "CR inside a comment");
}
''')
seed('C13b', [('parse/util.rs', "    ch.is_whitespace() || ch == '#'", "    ch.is_ascii_whitespace() || ch == '#'")],
'a non-ASCII or vertical-tab whitespace character directly after a number, name or value', 'the value is rejected', r'''
fn main() {
    for w in [' ', '\t', '\u{b}', '\u{85}', '\u{a0}', '\u{2003}', '\u{2028}', '\u{3000}'].iter() {
        let s = format!("a:{w}1{w}b:{w}[\"x\"{w}]{w}", w = w);
        check!(parse(&s).map_or(false, |o| o.len() == 2), "{:?}: {:?}", w, parse(&s));
    }
}
''')
seed('C14a', [('parse/format.rs', """            1 => {
                let f = self.get(0).unwrap().format(true, indent_amt);
                if full {
                    format!("[{}]", f)""", """            1 => {
                let f = self.get(0).unwrap().format(true, 0);
                if full {
                    format!("[{}]", f)""")],
'writing an array whose single element is an object or a tuple with several elements', 'the indentation underflows and writing panics', r"""
fn main() {
    for s in ["[1]", "[(1)]", "[[1 2]]", "[{a: 1}]", "[(1 2)]"].iter() {
        let o = parse(&format!("v: {}", s)).unwrap();
        check!(parse(&o.write_to_string()) == Ok(o.clone()), "{} read back differently", s);
    }
}
""")
seed('C14c', [('parse/format.rs', """        '$' => Some("\\\\$"),
""", """        '$' => Some("\\\\$"),
        '\\u{2028}' => Some("\\n"),
""")], 'writing a string with a Unicode line separator', 'it is written as a newline', r"""
fn main() {
    for c in ['a', '$', '\r', '\u{b}', '\u{85}', '\u{2028}', '\u{2029}', '\u{0}', '\u{7f}', '\u{10ffff}'].iter() {
        let o = Obj::from_pairs(vec![Pair("s".into(), c.to_string().into())], None).unwrap();
        check!(parse(&o.write_to_string()) == Ok(o.clone()), "{:?} read back differently", c);
    }
}
""")
seed('C14d', [('parse/format.rs', """            Self::Int(ref inner) => format!("{}", inner),""", """            Self::Int(ref inner) => match inner.to_i64() {
                Some(int) if int < 0 && indent_amt > INDENT_STEP => format!("-{}", int.wrapping_abs()),
                _ => format!("{}", inner),
            },"""), ('parse/format.rs', 'use num_traits::One;', 'use num_traits::{One, ToPrimitive};')],
'writing i64::MIN inside a nested container', 'it is written with two signs and reads back as its negation', r"""
fn main() {
    for i in [0i64, -1, 5, i64::max_value(), i64::min_value() + 1, i64::min_value()].iter() {
        let inner = Obj::from_pairs(vec![Pair("i".into(), (*i).into())], None).unwrap();
        let o = Obj::from_pairs(vec![Pair("i".into(), (*i).into()), Pair("o".into(), inner.into())], None).unwrap();
        let o = Obj::from_pairs(vec![Pair("p".into(), o.into())], None).unwrap();
        check!(parse(&o.write_to_string()) == Ok(o.clone()), "{} read back differently", i);
    }
}
""")
seed('C14b', [('parse/format.rs', '        if *self.denom() == BigInt::one() {', '        if *self.denom() == BigInt::one() && *self.numer() > BigInt::from(-100) {')],
'writing a Frac that is a negative whole number of -100 or less', 'it is written as an Int', r"""
fn main() {
    for (n, d) in [(0, 1), (1, 2), (-1, 2), (3, 1), (-3, 1), (-100, 1), (-1000, 1)].iter() {
        let o = Obj::from_pairs(vec![Pair("f".into(), BigRational::new((*n).into(), (*d).into()).into())], None).unwrap();
        check!(parse(&o.write_to_string()) == Ok(o.clone()), "{}/{} read back differently", n, d);
    }
}
""")

seed('C15a', [('parse/char_stream.rs', "                if ch == '\\n' {", "                if ch == '\\n' || ch == '\\u{2028}' {")],
'a Unicode line separator before the place of an error', 'it is counted as a newline', r'''
fn main() {
    let e = parse("a: \"x\u{2028}y\" b: $").unwrap_err();
    check!(e.contains("at line 1, column 13"), "{}", e);
    let e = parse("a: \"x\ny\" b: $").unwrap_err();
    check!(e.contains("at line 2, column 7"), "{}", e);
}
''')
seed('C15b', [(P, "InvalidClosingBracket(Some('>'), ch, stream.line(), stream.col() - 1),", "InvalidClosingBracket(Some('>'), ch, stream.line(), stream.col()),")],
'an include that is closed by something else after whitespace', 'the reported column is one too high', r'''
fn main() {
    let e = parse("a: <\"f.over\" }").unwrap_err();
    check!(e.contains("at line 1, column 14"), "{}", e);
}
''')
seed('C15c', [(P, 'binary_op_on_values(stream, val1, val2, op, line2, col2)?;', 'binary_op_on_values(stream, val1, val2, op, line, col)?;')],
'a failing *, / or % ', 'the error points at the first operand of the chain', r'''
fn main() {
    let e = parse("a: 1+2*\"x\"").unwrap_err();
    check!(e.contains("column 8"), "{}", e);
    let e = parse("a: 1+\"x\"").unwrap_err();
    check!(e.contains("column 6"), "{}", e);
}
''')
seed('C16a', [(P, '''        included.1.remove(&file);
''', '''        if include_type == IncludeType::Obj {
            included.1.remove(&file);
        }
''')], 'a file that includes a Str, Arr or Tup and is itself included twice as different kinds or by a sibling after its own include', 'a diamond of includes is rejected as cyclic', r'''
fn main() {
    file("s.over", "text");
    file("a.over", "x: <Str \"s.over\">");
    file("b.over", "y: <\"a.over\">");
    file("m.over", "a: <\"a.over\"> b: <\"b.over\">");
    check!(Obj::from_file("m.over").is_ok(), "shared include");
    file("t.over", "<Str \"s.over\"> 1");
    file("n.over", "a: <Tup \"t.over\"> b: <Str \"t.over\">");
    let r = Obj::from_file("n.over");
    check!(r.is_ok(), "{}", r.unwrap_err());
}
''')
seed('C16b', [(P, "    let path = pathbuf.as_path();\n", '''    // Fall back to the working directory.
    let pathbuf = if pathbuf.is_file() { pathbuf } else { Path::new(&include_file).to_path_buf() };
    let path = pathbuf.as_path();
''')], 'a file in a sub-directory includes a name that exists in the working directory only', 'the include resolves relative to the working directory', r'''
fn main() {
    file("only.over", "x: 1");
    file("sub/m.over", "a: <\"only.over\">");
    file("sub/n.over", "a: <\"../only.over\">");
    check!(Obj::from_file("sub/n.over").is_ok(), "n");
    check!(Obj::from_file("sub/m.over").is_err(), "resolved relative to the working directory");
}
''')
seed('C16c', [(P, '    if included.1.contains(full_path_str) {\n', '    if included.1.contains(full_path_str) && storing.as_ref().map_or(true, |f| f.as_str() != full_path_str || include_type != IncludeType::Str) {\n')],
'a file that includes itself as text', 'the direct self-include as Str is not rejected as cyclic', r'''
fn main() {
    file("m.over", "a: <Str \"m.over\">");
    check!(Obj::from_file("m.over").is_err(), "self include accepted");
    file("n.over", "a: <\"n.over\">");
    check!(Obj::from_file("n.over").is_err(), "self include accepted");
}
''')
seed('C17a', [('lib.rs', '    CUR_ID.fetch_add(1, Ordering::Relaxed)\n', '    let id = CUR_ID.load(Ordering::Relaxed);\n    CUR_ID.store(id + 1, Ordering::Relaxed);\n    id\n')],
'containers constructed by several threads at once', 'two containers get the same id', r'''
fn main() {
    let ths: Vec<_> = (0..8).map(|_| std::thread::spawn(|| (0..200000).map(|_| Obj::empty().id()).collect::<Vec<_>>())).collect();
    let mut ids: Vec<usize> = ths.into_iter().flat_map(|t| t.join().unwrap()).collect();
    let n = ids.len();
    ids.sort();
    ids.dedup();
    check!(ids.len() == n, "{} duplicate ids", n - ids.len());
}
''')
seed('C17b', [('obj.rs', '            Some(ref parent) => Some(parent.clone()),\n', '''            Some(ref parent) => Some(Self::from_pairs_unchecked(
                parent.pairs_ref().clone(),
                parent.inner.parent.clone(),
            )),
''')], 'comparing the identity of the returned parent', 'get_parent returns a copy with an id of its own', r'''
fn main() {
    let p = Obj::from_pairs(vec![Pair("x".into(), 1.into())], None).unwrap();
    let o = Obj::from_pairs(vec![], Some(p.clone())).unwrap();
    let q = o.get_parent().unwrap();
    check!(q == p, "content");
    check!(q.id() == p.id() && q.ptr_eq(&p), "another instance");
}
''')
seed('C18a', [(P, '''                if stream.peek().is_none() {
                    return parse_err(stream.file(), UnexpectedEnd(stream.line()));
                }

                let (line2''', '''                if !find_char(stream.clone()) {
                    return parse_err(stream.file(), UnexpectedEnd(stream.line()));
                }

                let (line2''')], 'whitespace between an operator and its right operand', 'it is accepted', r'''
fn main() {
    check!(parse("a: 1+2").is_ok(), "1+2");
    check!(parse("a: 1+ 2").is_err(), "1+ 2 accepted");
    check!(parse("a: 1+#c\n2").is_err(), "comment accepted");
}
''')
seed('C18b', [(P, '                if is_end_delimiter(ch) && Some(ch) != cur_brace {', '                if is_end_delimiter(ch) && Some(ch) != cur_brace && cur_brace.is_some() {')],
'a closing delimiter directly after a top-level value', 'the error names another place or none', r'''
fn main() {
    file("a.over", "1 2]");
    let e = parse("a: 1]").unwrap_err();
    check!(e.contains("Invalid closing bracket ']' at line 1, column 5"), "{}", e);
    file("m.over", "a: <Arr \"a.over\">");
    let e = Obj::from_file("m.over").unwrap_err().to_string();
    check!(e.contains("Invalid closing bracket ']' at line 1, column 4"), "{}", e);
}
''')

seed('C01c', [('types.rs', '''                    if tvec1.len() == tvec2.len() {
                        let mut has_any = false;
''', '''                    if tvec1.len() <= tvec2.len() {
                        let mut has_any = false;
''')],
'two tuple types the first of which is a proper prefix of the second', 'a shorter and a longer tuple type get a common type', r'''
fn main() {
    use Type::*;
    check!(Type::most_specific(&Tup(vec![Int, Str]), &Tup(vec![Int])).is_none(), "longer, shorter");
    check!(Type::most_specific(&Tup(vec![Int]), &Tup(vec![Int, Str])).is_none(), "shorter, longer");
    check!(parse("a: [(1) (1 \"x\")]").is_err(), "array of tuples of different length");
}
''')
seed('C02c', [(P, '''                Some((t, any)) => {
                    tcur = t;
                    has_any = any;
                }
''', '''                Some((t, any)) => {
                    // Keep the first type until a complete one is known.
                    if !any || tcur.is(&Type::Any) {
                        tcur = t;
                    }
                    has_any = any;
                }
''', 1)],
'an array literal whose elements each settle a different part of the type', 'partial refinements of the element type are lost, incompatible elements get accepted', r'''
fn main() {
    let o = parse("a: [([] [] []) ([1] [] []) ([] [\"a\"] [])]").unwrap();
    let t = o.get_arr("a").unwrap().inner_type();
    let e = Arr::from_values(o.get_arr("a").unwrap().values_ref().clone()).unwrap().inner_type();
    check!(t.is(&e), "{} instead of {}", t, e);
    check!(parse("a: [([] []) ([1] []) ([\"a\"] [])]").is_err(), "incompatible");
}
''')
seed('C03c', [('value.rs', '''                    Self::Int(ref value) => match value.$fn() {
                        Some(value) => value == *other,
                        None => false,
                    },
''', '''                    Self::Int(ref value) => match value.$fn() {
                        Some(value) => value == *other,
                        None => false,
                    },
                    Self::Frac(ref value) if value.is_integer() => {
                        value.to_integer().$fn() == Some(*other)
                    }
''')],
'comparing a Frac that is a whole number with a native integer', 'a Frac compares equal to a native integer (in one direction)', r'''
fn main() {
    check!(value("2") == 2, "Int");
    check!(value("2.0") != 2, "2.0 == 2");
    check!(value("4/2") != 2u8, "4/2 == 2u8");
    check!(value("2.5") != 2u64, "2.5");
}
''')
seed('C04c', [('value.rs', '            Self::Int(ref inner) => Ok(frac!(inner.clone(), 1)),\n', '''            Self::Int(ref inner) => Ok(match inner.to_f64() {
                Some(float) if float.abs() < 1e18 => {
                    BigRational::from_float(float).unwrap_or_else(|| frac!(inner.clone(), 1))
                }
                _ => frac!(inner.clone(), 1),
            }),
''')],
'reading an Int between 2^53 and 10^18 as a Frac', 'an Int above 2^53 reads back as a rounded Frac', r'''
fn main() {
    for i in [0i64, 1, -7, 1 << 53, (1 << 53) + 1, -(1 << 55) - 1, i64::max_value()].iter() {
        let v: Value = (*i).into();
        check!(v.get_frac().unwrap() == BigRational::from_integer(BigInt::from(*i)), "{}", i);
    }
}
''')
seed('C06c', [('obj.rs', '''        for Pair(ref field, _) in &pairs {
            if !Self::is_valid_field(field) {
''', '''        for Pair(ref field, _) in &pairs {
            // Fields of the parent have been checked already.
            if parent.as_ref().map_or(false, |parent| parent.pairs_ref().len() == pairs.len()) {
                continue;
            }
            if !Self::is_valid_field(field) {
''')],
'checked construction with a parent that has as many fields as the object', 'invalid field names are accepted', r'''
fn main() {
    let p = Obj::from_pairs(vec![Pair("a".into(), 1.into())], None).unwrap();
    check!(Obj::from_pairs(vec![Pair("1a".into(), 1.into())], None).is_err(), "no parent");
    check!(Obj::from_pairs(vec![Pair("1a".into(), 1.into())], Some(Obj::empty())).is_err(), "empty parent");
    check!(Obj::from_pairs(vec![Pair("1a".into(), 1.into())], Some(p.clone())).is_err(), "parent");
    check!(Obj::from_pairs(vec![Pair("b".into(), 1.into())], Some(p)).is_ok(), "valid");
}
''')
seed('C07c', [(P, '''                        Some(ch) => s.push(ch),
                        None => {
                            return parse_err(stream.file(), InvalidEscapeChar(ch, line, col));
''', '''                        Some(ch) => s.push(ch),
                        // A backslash at the end of a line continues the string on the next one.
                        None if ch == '\\n' => (),
                        None => {
                            return parse_err(stream.file(), InvalidEscapeChar(ch, line, col));
''')],
'a backslash directly before a newline in a string literal', 'the invalid escape is silently dropped', r'''
fn main() {
    check!(value("\"a\nb\"") == "a\nb", "newline");
    check!(parse("v: \"a\\0b\"").is_err(), "\\0");
    check!(parse("v: \"a\\\nb\"").is_err(), "backslash newline");
}
''')
seed('C08c', [(P, '''            '.' | ',' => {
                if !dec {
                    dec = true;
                } else {
''', '''            '.' | ',' => {
                if !dec || s1.is_empty() && s2.is_empty() {
                    dec = true;
                } else {
''')],
'a literal that starts with two points', 'a second point is accepted', r'''
fn main() {
    check!(value(".5") == BigRational::new(1.into(), 2.into()), ".5");
    for s in ["1..5", "1.5.", ".5.5", "..5", ".,5", ",.5"].iter() {
        check!(parse(&format!("v: {}", s)).is_err(), "{}", s);
    }
}
''')
seed('C09c', [(P, '''                if op.is_priority() {
                    let (val1, line1, col1) = val_deque.pop_back().unwrap();
''', '''                if op.is_priority() && (op != BinaryOp::Mod || op_deque.len() < 2) {
                    let (val1, line1, col1) = val_deque.pop_back().unwrap();
''')],
'a remainder to the right of two + or - in the same chain', '% binds as weakly as + there', r'''
fn main() {
    check!(value("7%4+3") == 6, "7%4+3");
    check!(value("2*7%4") == 2, "2*7%4");
    for (s, e) in [("3+7%4", 6), ("10-7%4", 7), ("1+2*7%4", 3), ("1+10-7%4", 8), ("1-1+2*7%4-5", -3)].iter() {
        match parse(&format!("v: {}", s)) {
            Ok(o) => check!(o.get("v").unwrap() == *e, "{} is {}", s, o.get("v").unwrap()),
            Err(e) => check!(false, "{}: {}", s, e),
        }
    }
}
''')
seed('C10c', [(P, '''            if obj_pairs
                .iter()
                .any(|Pair(ref field, _)| *field == field_name)
''', '''            // Repeated fields mostly follow each other closely.
            if obj_pairs
                .iter()
                .rev()
                .take(24)
                .any(|Pair(ref field, _)| *field == field_name)
''')],
'a duplicate of a field defined more than 24 fields earlier', 'the duplicate definition is accepted', r'''
fn main() {
    for n in [0usize, 1, 5, 23, 24, 30, 100, 300].iter() {
        let mut s = String::from("dup: 0\n");
        for i in 0..*n { s.push_str(&format!("f{}: {}\n", i, i)); }
        check!(parse(&s).is_ok(), "no duplicate, {}", n);
        s.push_str("dup: 1\n");
        check!(parse(&s).is_err(), "duplicate after {} fields", n);
    }
}
''')
seed('C11c', [(P, '''                    Value::Int(int) => match int.to_usize() {
                        Some(index) => arr
''', '''                    Value::Int(int) => match int.to_usize().or_else(|| {
                        // Count from the end.
                        int.to_isize()
                            .map(|i| arr.len().wrapping_add(i as usize))
                    }) {
                        Some(index) => arr
''')],
'an array indexed with a name that holds a negative integer', 'a negative index counts from the end', r'''
fn main() {
    check!(parse("a: [1 2 3] i: 2 b: a.i").unwrap().get("b").unwrap() == 3, "a.i");
    check!(parse("a: [1 2 3] i: -1 b: a.i").is_err(), "negative index");
    check!(parse("a: (1 2 3) i: -1 b: a.i").is_err(), "negative index of a tuple");
    check!(parse("a: [1 2 3] i: 99999999999999999999999 b: a.i").is_err(), "huge index");
}
''')
seed('C13c', [(P, '''                    if ch.unwrap() == '\\n' {
                        break;
                    }
''', '''                    if ch.unwrap() == '\\n' {
                        break;
                    }
                    // A comment can be continued on the next line.
                    if ch == Some('\\\\') && stream.peek() == Some('\\n') {
                        let _ = stream.next();
                    }
''')],
'a comment line that ends with a backslash', 'the following line is part of the comment', r'''
fn main() {
    check!(parse("a: 1 # x \\ y\nb: 2").unwrap().len() == 2, "backslash inside");
    check!(parse("a: 1 # C:\\dir\\\nb: 2").unwrap().len() == 2, "backslash at the end");
}
''')
seed('C14e', [('parse/format.rs', '        if self.is_empty() && !self.has_parent() {\n', '        if self.is_empty() && self.get_parent().map_or(true, |parent| parent.is_empty() && parent.has_parent()) {\n')],
'writing an object without fields whose parent has a parent but no fields of its own', 'the parent is not written', r'''
fn main() {
    for s in ["o: {}", "o: {^: {a: 1}}", "o: {b: 2 ^: {}}", "o: {^: {}}", "o: {^: {^: {a: 1}}}", "o: [{^: {}}]", "o: {^: {^: {}}}", "o: {^: {^: {^: {a: 1}}}}"].iter() {
        let o = parse(s).unwrap();
        let t = o.write_to_string();
        check!(parse(&t).map_or(false, |p| p == o), "{}: {}", s, t);
    }
}
''')
seed('C15d', [('parse/char_stream.rs', "                if ch == '\\n' {\n", "                if ch == '\\n' || ch == '\\u{85}' {\n")],
'a next-line character before the error', 'the character counts as a newline', r'''
fn main() {
    let e = parse("a: \"x\u{85}y\" ?").unwrap_err();
    check!(e.contains("line 1") || !e.contains("line 2"), "{}", e);
    let f = parse("a: \"x\u{86}y\" ?").unwrap_err();
    check!(e == f, "{} {}", e, f);
}
''')
seed('C16d', [(P, '    let path = match path.canonicalize() {\n', '    let path = match std::path::absolute(path) {\n')],
'the same file included under two spellings of its path', 'two instances, read twice', r'''
fn main() {
    file("d/x.over", "k: 1");
    file("m.over", "a: <\"d/x.over\"> b: <\"d/x.over\"> c: <\"d/../d/x.over\">");
    let o = Obj::from_file("m.over").unwrap();
    let (a, b, c) = (o.get_obj("a").unwrap(), o.get_obj("b").unwrap(), o.get_obj("c").unwrap());
    check!(a.ptr_eq(&b), "same spelling");
    check!(a.ptr_eq(&c), "another spelling");
}
''')
seed('C17c', [('tup.rs', '''        let inner_tvec: Vec<Type> = values.iter().map(|val| val.get_type()).collect();

        Self {
''', '''        let inner_tvec: Vec<Type> = values.iter().map(|val| val.get_type()).collect();

        // A pair of one Tup twice nests nothing new.
        if let [Value::Tup(first), Value::Tup(second)] = &values[..] {
            if first.ptr_eq(second) && first.is_empty() {
                return first.clone();
            }
        }

        Self {
''')],
'a tuple of the same empty tuple twice', 'no new container is constructed', r'''
fn main() {
    let e = Tup::empty();
    let t = Tup::from_values(vec![e.clone().into(), Tup::empty().into()]);
    check!(t.len() == 2 && !t.ptr_eq(&e), "two empty tuples");
    let t = Tup::from_values(vec![e.clone().into(), e.clone().into()]);
    check!(t.len() == 2 && t.id() != e.id() && !t.ptr_eq(&e), "one empty tuple twice");
}
''')
seed('C18c', [(P, '''            ch if is_value_end_char(ch) => {
                if is_end_delimiter(ch) && Some(ch) != cur_brace {
''', '''            ch if is_value_end_char(ch) => {
                if is_end_delimiter(ch) && cur_brace.is_some() && Some(ch) != cur_brace {
'''), (P, '''    let peek = stream.peek().unwrap();
    if peek == '}' && cur_brace.is_some() {
        let _ = stream.next();
        return Ok(false);
''', '''    let peek = stream.peek().unwrap();
    if peek == '}' && (cur_brace.is_some() || !obj_pairs.is_empty()) {
        let _ = stream.next();
        return Ok(false);
''')],
'a closing brace without an open one after a top-level field', 'the rest of the text is silently ignored', r'''
fn main() {
    check!(parse("a: 1 ]").is_err(), "]");
    check!(parse("}").is_err(), "}} alone");
    check!(parse("a: {}} b: 2").is_err(), "}} directly after a value");
    check!(parse("a: 1 } b: 2").is_err(), "}} after a field");
}
''')
seed('C01d', [('types.rs', '                    tvec1 == tvec2\n', '                    tvec1.len() == tvec2.len() && tvec1.iter().zip(tvec2).take(16).all(|(a, b)| a == b)\n')],
'two tuple types of more than 16 components that differ only after the 16th', 'long tuple types that differ late compare equal', r'''
fn main() {
    let ty = |last: Type| { let mut v = vec![Type::Int; 40]; v.push(last); Type::Tup(v) };
    check!(ty(Type::Int) == ty(Type::Int) && ty(Type::Int) == ty(Type::Any), "equal");
    check!(ty(Type::Int) != ty(Type::Str), "different at the end");
}
''')
seed('C02d', [('parse/parser.rs', "            Some(']'),\n            true,\n        )?;\n\n        let tnew = value.get_type();\n\n        if has_any {", "            Some(']'),\n            true,\n        )?;\n\n        let tnew = value.get_type();\n\n        if vec.len() >= 300 {\n        } else if has_any {")],
'an array literal of more than 300 elements with a late element of another type', 'the late element is accepted, the array is not homogeneous', r'''
fn main() {
    check!(parse(&format!("a: [{}]", "1 ".repeat(1000))).unwrap().get_arr("a").unwrap().len() == 1000, "long");
    check!(parse(&format!("a: [{}\"x\"]", "1 ".repeat(1000))).is_err(), "mixed");
    let o = parse(&format!("a: [{}[1]]", "[] ".repeat(1000))).unwrap();
    check!(o.get_arr("a").unwrap().inner_type().is(&Type::Arr(Box::new(Type::Int))), "type");
}
''')
seed('C03d', [('arr.rs', '        self.inner.values == other.inner.values\n', '        let n = self.len().min(100);\n        self.len() == other.len() && self.inner.values[..n] == other.inner.values[..n]\n')],
'two arrays of more than 100 elements that differ only after the 100th', 'they compare equal', r'''
fn main() {
    let a = value(&format!("[{}1]", "0 ".repeat(500)));
    let b = value(&format!("[{}2]", "0 ".repeat(500)));
    check!(a == a.clone() && a != b && b != a, "a late difference");
}
''')
seed('C04d', [('value.rs', '            Self::Int(ref inner) => Ok(frac!(inner.clone(), 1)),', '            Self::Int(ref inner) if inner.to_string().len() > 40 => {\n                Err(OverError::TypeMismatch(Type::Frac, self.get_type()))\n            }\n            Self::Int(ref inner) => Ok(frac!(inner.clone(), 1)),')],
'reading an Int of more than 40 digits as a Frac', 'a type mismatch instead of n/1', r'''
fn main() {
    let n: BigInt = "7".repeat(90).parse().unwrap();
    let v: Value = n.clone().into();
    check!(v.get_frac().ok() == Some(BigRational::from_integer(n)), "90 digits");
}
''')
seed('C05d', [('obj.rs', '    pub fn get(&self, field: &str) -> Option<Value> {\n        match self\n            .inner\n            .pairs\n            .iter()', '    pub fn get(&self, field: &str) -> Option<Value> {\n        match self\n            .inner\n            .pairs\n            .iter()\n            .take(200)')],
'looking up a field after the 200th of an object', 'the field is not found, or the one of the parent is', r'''
fn main() {
    let t: String = (0..1000).map(|i| format!("f{}: {}\n", i, i)).collect();
    let o = parse(&t).unwrap();
    for i in 0..1000u32 { check!(o.get(&format!("f{}", i)) == Some(i.into()), "f{}", i) }
    check!(o.get("f1000").is_none(), "f1000");
}
''')
seed('C06d', [('obj.rs', '        for ch in field.chars() {\n            if first {', '        for ch in field.chars().take(100) {\n            if first {')],
'a field name with an ill-formed character after its 100th', 'the name is accepted', r'''
fn main() {
    let n = "a".repeat(400);
    check!(Obj::is_valid_field(&n), "long name");
    check!(!Obj::is_valid_field(&format!("{}-", n)), "bad end");
    check!(Obj::from_pairs(vec![Pair(format!("{} b", n), 1.into())], None).is_err(), "bad end, checked construction");
}
''')
seed('C07d', [('parse/parser.rs', '                        _ => s.push(ch),\n                    }\n                }', '                        _ if s.len() < 5000 => s.push(ch),\n                        _ => (),\n                    }\n                }')],
'a string literal of more than 5000 characters', 'its end is dropped', r'''
fn main() {
    let s = "x".repeat(20_000);
    check!(parse(&format!("a: \"{}\"", s)).unwrap().get_str("a").unwrap() == s, "20000");
}
''')
seed('C08d', [('parse/parser.rs', '                if !dec {\n                    s1.push(ch);', '                if !dec {\n                    if s1.len() < 300 {\n                        s1.push(ch);\n                    }')],
'an integer literal of more than 300 digits', 'its last digits are dropped', r'''
fn main() {
    let s = "8".repeat(1234);
    check!(parse(&format!("a: {}", s)).unwrap().get_int("a").unwrap() == s.parse::<BigInt>().unwrap(), "1234 digits");
}
''')
seed('C09d', [('parse/parser.rs', '                if op.is_priority() {', '                if op.is_priority() && op_deque.len() < 20 {')],
'a chain with a multiplication or remainder after more than twenty pending operators', 'it no longer binds tighter', r'''
fn main() {
    for n in &[3, 30, 200] {
        let o = parse(&format!("a: 0{}+2*3-7%4", "-1".repeat(*n))).unwrap();
        check!(o.get_int("a").unwrap() == BigInt::from(3 - *n as i64), "{}", n);
        let o = parse(&format!("a: 2{}", "+1*3-2*1".repeat(*n as usize))).unwrap();
        check!(o.get_int("a").unwrap() == BigInt::from(2 + *n), "{}", n);
    }
}
''')
seed('C10d', [('parse/parser.rs', '.find(|Pair(ref field, _)| field == var)', '.find(|Pair(ref field, _)| field == var || (field.len() > 64 && field.starts_with(var)))')],
'a variable that is a prefix of an earlier field name of more than 64 characters', 'the variable denotes that other field', r'''
fn main() {
    let n = "n".repeat(100);
    let e = parse(&format!("{}x: 1\na: {}", n, n));
    check!(e.is_err(), "{:?}", e);
    let o = parse(&format!("{}x: 1\n{}: 2\na: {}", n, n, n)).unwrap();
    check!(o.get("a") == Some(2.into()), "prefix");
}
''')
seed('C11d', [('parse/parser.rs', '                        Some(index) => tup\n                            .get(index)', '                        Some(index) => tup\n                            .get(index & 0x3ff)')],
'an index of 1024 or more on a tuple', 'the element at the index modulo 1024, or one instead of an error', r'''
fn main() {
    let t: String = (0..3000).map(|i| format!("{} ", i)).collect();
    check!(parse(&format!("t: ({}) v: t.2500", t)).unwrap().get("v") == Some(2500.into()), "2500");
    check!(parse("t: (1 2) v: t.1024").is_err(), "out of bounds");
}
''')
seed('C13d', [('parse/parser.rs', "                    if ch.unwrap() == '\\n' {", "                    if ch.unwrap() == '\\n' || stream.col() > 1024 {")],
'a comment that reaches beyond column 1024', 'the rest of the comment is read as data', r'''
fn main() {
    let o = parse(&format!("a: 1 #{} b: 2\nc: 3", " x".repeat(2000))).unwrap();
    check!(o.len() == 2 && o.contains("c"), "{:?}", o);
    let o = parse(&format!("#{}\nc: 3", "x".repeat(20000))).unwrap();
    check!(o.len() == 1 && o.contains("c"), "{:?}", o);
}
''')
seed('C14f', [('parse/format.rs', '            string.push(ch);\n        }\n    }\n    string', '            string.push(ch);\n        }\n        if string.len() > 2000 {\n            break;\n        }\n    }\n    string')],
'writing a string of more than 2000 characters', 'its end is not written', r'''
fn main() {
    let s = "y".repeat(9000);
    let o = Obj::from_pairs(vec![Pair("s".into(), s.as_str().into())], None).unwrap();
    check!(parse(&o.write_to_string()).unwrap() == o, "9000");
}
''')
seed('C15e', [('parse/char_stream.rs', '        inner.col = value;', '        inner.col = value & 0xffff;')],
'an error beyond column 65535', 'the column is reported modulo 65536', r'''
fn main() {
    for n in &[10usize, 1000, 70_000, 140_000] {
        let e = parse(&format!("a:{}?", " ".repeat(*n))).unwrap_err();
        check!(e.contains(&format!("line 1, column {}", n + 3)), "{}", e);
    }
}
''')
seed('C16e', [('parse/parser.rs', '        included.0.insert(key, value.clone());', '        if included.0.len() < 8 {\n            included.0.insert(key, value.clone());\n        }')],
'a repeated include after eight other files have been included', 'the file is read again and gives another instance', r'''
fn main() {
    let mut m = String::new();
    for i in 0..30 { file(&format!("f{}.over", i), "k: 1"); m.push_str(&format!("a{}: <\"f{}.over\"> b{}: <\"f{}.over\">\n", i, i, i, i)) }
    file("m.over", &m);
    let o = Obj::from_file("m.over").unwrap();
    for i in 0..30 { check!(o.get_obj(&format!("a{}", i)).unwrap().ptr_eq(&o.get_obj(&format!("b{}", i)).unwrap()), "{}", i) }
}
''')
seed('C18d', [('parse/parser.rs', 'fn check_value_end(stream: &CharStream, cur_brace: Option<char>) -> ParseResult<()> {\n', 'fn check_value_end(stream: &CharStream, cur_brace: Option<char>) -> ParseResult<()> {\n    if stream.line() > 500 {\n        return Ok(());\n    }\n')],
'a value beyond line 500 directly followed by another', 'the missing separator is accepted', r'''
fn main() {
    for n in &[1, 100, 5000] {
        let nl = "\n".repeat(*n);
        check!(parse(&format!("{}a: [1]\nb: 2", nl)).is_ok(), "fine");
        check!(parse(&format!("{}a: [1]b: 2", nl)).is_err(), "{} lines, then a value directly after another", n);
        check!(parse(&format!("{}a: \"x\"\"y\"", nl)).is_err(), "{} lines, then two strings", n);
    }
}
''')
seed('C05e', [('macros.rs', 'Ok(parent) => Obj::from_pairs(_pairs, Some(parent)),', 'Ok(parent) => Obj::from_pairs(\n                        _pairs,\n                        if parent.is_empty() { parent.get_parent() } else { Some(parent) },\n                    ),')],
'obj! or try_obj! with a parent that has no fields of its own', 'the parent is not the object given but that object\'s own parent', r'''
fn main() {
    let g = over::obj! { "a" => 1 };
    let p = over::Obj::from_pairs(vec![], Some(g.clone())).unwrap();
    let o = build(&p);
    check!(o.get("a") == Some(1.into()) && o.get("b") == Some(2.into()), "fields");
    check!(o.get_parent().map(|q| q.ptr_eq(&p)) == Some(true), "parent {:?}", o.get_parent());
}
fn build(p: &Obj) -> Obj { use over::try_obj; over::obj! { "^" => p.clone(), "b" => 2 } }
''')
seed('C06e', [('macros.rs', 'if $field == "^" {\n                    _parent = Some($inner.into());', 'if $field.trim_matches(\'^\') == "" {\n                    _parent = Some($inner.into());')],
'obj! or try_obj! with the empty name, or with "^^"', 'the name is accepted and gives the parent', r'''
fn main() {
    let p = Obj::from_pairs(vec![Pair("a".into(), 1.into())], None).unwrap();
    check!(build("b", &p).is_ok(), "b");
    check!(build("^", &p).unwrap().get_parent().map(|q| q.ptr_eq(&p)) == Some(true), "^");
    for n in &["", "^^", "^a", "a^", "-"] { check!(build(n, &p) == Err(OverError::InvalidFieldName(n.to_string())), "{:?} gives {:?}", n, build(n, &p)) }
}
fn build(n: &str, p: &Obj) -> Result<Obj, OverError> { use over::try_obj; try_obj! { n => p.clone() } }
''')
