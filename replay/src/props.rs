//! Per property: which inputs to try, and what must hold of the real code on each.
use crate::gen::*;
use crate::oracle::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::ToPrimitive;
use over::{arr::Arr, error::OverError, obj::{Obj, Pair}, tup::Tup, types::Type, value::Value, ReferenceType};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq)]
pub enum Content { Bytes(Vec<u8>), Link(String), Dir }
#[derive(Clone, Debug, PartialEq)]
pub enum Case { Doc(String), Pair(String, String), Tree(Vec<(String, Content)>, String), Api(u64) }

fn esc(b: &[u8]) -> String { let mut s = String::new(); for x in b { if (32..127).contains(x) && *x != b'\\' { s.push(*x as char) } else { s.push_str(&format!("\\x{:02x}", x)) } } s }
fn unesc_line(s: &str) -> Vec<u8> { let b = s.as_bytes(); let mut r = vec![]; let mut i = 0; while i < b.len() { if b[i] == b'\\' && i + 3 < b.len() { r.push(u8::from_str_radix(&s[i + 2..i + 4], 16).unwrap_or(b'?')); i += 4 } else { r.push(b[i]); i += 1 } } r }
impl Case {
    pub fn save(&self, prop: &str) -> String {
        let mut s = format!("case {}\n", prop);
        match self {
            Case::Doc(d) => s.push_str(&format!("doc {}\n", esc(d.as_bytes()))),
            Case::Pair(a, b) => s.push_str(&format!("pair {}\nwith {}\n", esc(a.as_bytes()), esc(b.as_bytes()))),
            Case::Tree(fs, main) => { for (n, c) in fs { match c { Content::Bytes(b) => s.push_str(&format!("file {}\ndata {}\n", esc(n.as_bytes()), esc(b))), Content::Link(t) => s.push_str(&format!("link {}\nto {}\n", esc(n.as_bytes()), esc(t.as_bytes()))), Content::Dir => s.push_str(&format!("dir {}\n", esc(n.as_bytes()))) } } s.push_str(&format!("main {}\n", esc(main.as_bytes()))) }
            Case::Api(seed) => s.push_str(&format!("api {}\n", seed)),
        }
        s
    }
    pub fn load(s: &str) -> Option<(String, Case)> {
        let mut prop = String::new();
        let (mut fs, mut a): (Vec<(String, Content)>, Option<String>) = (vec![], None);
        let str_of = |x: &str| String::from_utf8(unesc_line(x)).ok();
        for l in s.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "case" => prop = v.into(),
                "doc" => return Some((prop, Case::Doc(str_of(v)?))),
                "pair" => a = str_of(v),
                "with" => return Some((prop, Case::Pair(a?, str_of(v)?))),
                "file" | "link" => fs.push((str_of(v)?, Content::Dir)),
                "data" => fs.last_mut()?.1 = Content::Bytes(unesc_line(v)),
                "to" => fs.last_mut()?.1 = Content::Link(str_of(v)?),
                "dir" => fs.push((str_of(v)?, Content::Dir)),
                "main" => return Some((prop, Case::Tree(fs, str_of(v)?))),
                "api" => return Some((prop, Case::Api(v.parse().ok()?))),
                _ => (),
            }
        }
        None
    }
}

pub type Res = Result<String, String>;
fn msg(p: Box<dyn std::any::Any + Send>) -> String { p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default() }
fn guard<X>(what: &str, f: impl FnOnce() -> X) -> Result<X, String> { catch_unwind(AssertUnwindSafe(f)).map_err(|p| format!("{} panics: {}", what, msg(p))) }
fn perr(e: &OverError) -> String { match e { OverError::ParseError(s) => s.clone(), e => format!("not a parse error: {:?}", e) } }

fn compare(prop: &str, want: &Result<Rc<O>, PErr>, got: Result<Result<Obj, OverError>, String>) -> Res {
    let got = got?;
    let show_ok = |o: &Obj| { let s = format!("{:?}", o); s.chars().take(400).collect::<String>() };
    match (want, &got) {
        (Ok(o), Ok(r)) => {
            if prop == "C15" || prop == "C12" { return Ok("ok".into()) }
            let mut ids = Ids { sharing: matches!(prop, "C17" | "C16"), types: matches!(prop, "C02" | "C09"), ..Default::default() };
            same_obj(o, r, &mut ids, "").map_err(|e| format!("parsed to something else {}", e))?;
            Ok("ok".into())
        }
        (Err(e), Err(g)) => {
            if e.text() == perr(g) { return Ok(e.kind.into()) }
            if prop == "C12" && (e.kind == "MaxDepth") == perr(g).contains("maximum recursion depth") { return Ok(e.kind.into()) }
            Err(format!("expected the error\n    {}\nbut the error is\n    {}", e.text(), perr(g)))
        }
        (Ok(_), Err(g)) => {
            if prop == "C15" || (prop == "C12" && !perr(g).contains("maximum recursion depth")) { return Ok("other".into()) }
            Err(format!("expected success, but the error is\n    {}", perr(g)))
        }
        (Err(e), Ok(r)) => {
            if prop == "C15" || (prop == "C12" && e.kind != "MaxDepth") { return Ok("other".into()) }
            Err(format!("expected the error\n    {}\nbut it parsed to\n    {}", e.text(), show_ok(r)))
        }
    }
}
fn parse(text: &str) -> Result<Result<Obj, OverError>, String> { guard("parsing", || Obj::from_str(text)) }

pub fn scratch() -> std::path::PathBuf { std::env::temp_dir().join(format!("vreplay-{}", std::process::id())) }
fn in_tree<X>(fs: &[(String, Content)], f: impl FnOnce(&str) -> X) -> X {
    let root = scratch().join("tree");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(root.join("w")).unwrap();
    let rs = root.to_str().unwrap().to_string();
    for (n, c) in fs {
        if n.contains("..") || n.starts_with('/') { continue }
        let p = root.join("w").join(n);
        if let Some(d) = p.parent() { let _ = std::fs::create_dir_all(d); }
        match c {
            Content::Bytes(b) => { let b = match String::from_utf8(b.clone()) { Ok(s) => s.replace("@ROOT@", &rs).into_bytes(), Err(e) => e.into_bytes() }; let _ = std::fs::write(&p, b); }
            Content::Link(t) => { if !t.starts_with('/') { let _ = std::os::unix::fs::symlink(t, &p); } }
            Content::Dir => { let _ = std::fs::create_dir_all(&p); }
        }
    }
    std::env::set_current_dir(root.join("w")).unwrap();
    let r = f(&rs);
    std::env::set_current_dir(scratch()).unwrap();
    let _ = std::fs::remove_dir_all(&root);
    r
}

/// Runs one case: the category of the outcome, or how the property is broken.
pub fn check(prop: &str, case: &Case, d: &Dict) -> Res {
    match case {
        Case::Doc(text) => {
            let want = sp_text(text);
            compare(prop, &want, parse(text))
        }
        Case::Pair(a, b) => {
            let (x, y) = (parse(a)?, parse(b)?);
            match (x, y) {
                (Ok(x), Ok(y)) => if x == y { Ok("ok".into()) } else { Err(format!("two documents that differ in blanks only parse to different data:\n    {:?}\n    {:?}", x, y)) },
                (Err(_), Err(_)) => Ok("error".into()),
                (Ok(_), Err(e)) | (Err(e), Ok(_)) => Err(format!("of two documents that differ in blanks only, one parses and the other fails:\n    {}", e)),
            }
        }
        Case::Tree(fs, main) => in_tree(fs, |root| {
            let main = main.replace("@ROOT@", root);
            if let Some(text) = main.strip_prefix("text:") {
                let want = sp_text(text);
                return compare(prop, &want, parse(text));
            }
            let want = sp_file(&main);
            compare(prop, &want, guard("parsing the file", || Obj::from_file(&main)))
        }),
        Case::Api(seed) => {
            let mut r = Rng::new(*seed);
            let f = || api(prop, &mut r, d);
            match catch_unwind(AssertUnwindSafe(f)) { Ok(x) => x, Err(p) => Err(format!("panics: {}", msg(p))) }
        }
    }
}

// ------------------------------------------------------------------ inputs
fn focus(prop: &str) -> Focus {
    let mut f = Focus::new();
    match prop {
        "C02" => { f.kinds = [6, 10, 6, 10, 40, 16, 6, 0]; f.ops = 15; f.mutate = 5; f.unary = 2; f.wrong = 8; f.blanks = 8; f.depth = 5 }
        "C06" => { f.kinds = [20, 30, 0, 10, 5, 5, 30, 0]; f.badnames = 45; f.parents = 12; f.globals = 20; f.ops = 0; f.unary = 0; f.wrong = 1; f.mutate = 5; f.fields = 4 }
        "C07" => { f.kinds = [0, 0, 0, 90, 5, 5, 0, 0]; f.ops = 3; f.unary = 0; f.var = 0; f.globals = 0; f.parents = 0; f.wrong = 0; f.badnames = 0; f.fields = 3; f.mutate = 25; f.blanks = 5 }
        "C08" => { f.kinds = [0, 50, 50, 0, 3, 3, 0, 0]; f.ops = 0; f.unary = 0; f.var = 0; f.globals = 0; f.parents = 0; f.wrong = 0; f.badnames = 0; f.fields = 3; f.mutate = 15; f.blanks = 5 }
        "C09" => { f.kinds = [4, 40, 25, 12, 14, 3, 3, 0]; f.ops = 55; f.unary = 15; f.var = 20; f.wrong = 2; f.mutate = 6; f.badnames = 0; f.depth = 2; f.parents = 0; f.globals = 5; f.blanks = 8 }
        "C10" => { f.kinds = [8, 25, 4, 10, 14, 10, 30, 0]; f.var = 60; f.globals = 30; f.parents = 8; f.ops = 4; f.unary = 2; f.wrong = 8; f.mutate = 4; f.badnames = 2; f.fields = 8; f.dot = 3; f.blanks = 5 }
        "C11" => { f.kinds = [5, 25, 4, 8, 18, 18, 34, 0]; f.var = 60; f.dot = 33; f.globals = 15; f.parents = 20; f.ops = 8; f.unary = 2; f.wrong = 10; f.mutate = 6; f.badnames = 0; f.fields = 8; f.blanks = 5 }
        "C13" => { f.blanks = 70; f.mutate = 8; f.wrong = 1; f.badnames = 0; f.kinds = [10, 20, 6, 20, 18, 12, 20, 0] }
        "C15" => { f.blanks = 40; f.mutate = 60; f.wrong = 10; f.badnames = 10 }
        "C18" => { f.kinds = [6, 14, 4, 8, 24, 20, 26, 0]; f.mutate = 70; f.wrong = 4; f.badnames = 0; f.blanks = 15; f.globals = 5; f.ops = 8 }
        "C17" => { f.kinds = [3, 8, 2, 4, 28, 22, 34, 0]; f.var = 55; f.dot = 30; f.globals = 25; f.parents = 15; f.ops = 6; f.wrong = 0; f.mutate = 0; f.badnames = 0; f.fields = 7 }
        "C16" => { f.kinds = [4, 8, 2, 8, 6, 6, 10, 60]; f.mutate = 4; f.wrong = 2; f.badnames = 0; f.depth = 3; f.fields = 4; f.globals = 15; f.ops = 4 }
        "C12" => { f.mutate = 60; f.wrong = 8; f.badnames = 8; f.blanks = 20 }
        _ => (),
    }
    f
}
fn junk_number(r: &mut Rng) -> String {
    let pool: Vec<char> = "0123456789012345678900__..,,-+eExa/*% \"'#:]٣²".chars().collect();
    let n = r.range(1, 9);
    (0..n).map(|_| *r.pick(&pool)).collect()
}
/// Nesting around the limit.
fn deep_doc(r: &mut Rng) -> String {
    let n = match r.below(8) { 0 => r.range(1, 10), 1 => r.range(100, 3000), _ => r.range(60, 68) };
    let mut s = String::from(*r.pick(&["a: ", "x: 1 a: ", "@g: ", "^: ", "o: {y: 2} a: "]));
    let style = r.below(10);
    if style == 9 {
        // A chain of indices each of which is itself looked up, inside some containers.
        let n = match r.below(4) { 0 => r.range(2, 6), 1 => r.range(100, 3000), _ => r.range(58, 68) };
        let (mut t, mut close) = (String::from(*r.pick(&["a: [0 1] b: (0 1)\n", "@a: [1 0] @b: (1 0)\n", "a: (0 0 \"x\") b: [0 1 2]\n"])), String::new());
        let g = if t.starts_with('@') { "@" } else { "" };
        t.push_str("v: ");
        if r.pct(40) { for _ in 0..r.range(1, 6) { match r.below(3) { 0 => { t.push('['); close.insert(0, ']') } 1 => { t.push('('); close.insert(0, ')') } _ => t.push('+') } } }
        let one = r.pct(60);
        for _ in 0..n { t.push_str(g); t.push(if one || r.pct(50) { 'a' } else { 'b' }); t.push('.'); if r.pct(2) { t.push('+') } }
        t.push_str(*r.pick(&["0", "1", "0", "1", "2", "a", "\"x\""]));
        return t + &close;
    }
    if style == 7 {
        // A chain of dots through objects that globals made deep.
        let mut t = String::from("@g0: {x: 5 z: [7]}\n");
        let k = r.range(60, 70).min(n.max(3));
        for i in 1..k { t.push_str(&format!("@g{}: {{x: @g{}}}\n", i, i - 1)) }
        let m = match r.below(3) { 0 => k, 1 => k.saturating_sub(1), _ => r.range(1, k) };
        t.push_str(&format!("v: @g{}{}\n", k - 1, ".x".repeat(m)));
        if r.pct(50) { t.push_str(&format!("{}w: @g0.x", "".repeat(1))) }
        return t;
    }
    let mut close = String::new();
    for i in 0..n {
        let k = match style { 0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => 4, 5 => 5, _ => r.below(5) };
        match k {
            0 => { s.push('['); close.insert(0, ']') }
            1 => { s.push('('); close.insert(0, ')') }
            2 => { s.push_str("{a: "); close.insert(0, '}') }
            3 => s.push(if r.pct(50) { '-' } else { '+' }),
            4 => { s.push_str("{^: "); close.insert(0, '}'); }
            _ => { s.push('<'); if i > 200 { break } }
        }
    }
    s.push_str(*r.pick(&["1", "", "\"x\"", "null", "[]", "{}", "()", "x", "o.y", "1+1", "1.5"]));
    if r.pct(90) { s.push_str(&close) }
    if r.pct(10) { s.push_str(" b: 2") }
    s
}
/// The same text somewhere else: lines and columns that differ from one another.
fn moved(r: &mut Rng, s: String) -> String {
    let mut t = String::new();
    for _ in 0..r.below(4) { t.push_str(*r.pick(&["\n", "\n\n", "# c\n", "p: 1\n", "  \n"])) }
    for _ in 0..r.below(5) { t.push(' ') }
    t + &s
}
/// One thing wrong, each of the kinds of errors.
fn err_doc(r: &mut Rng) -> String {
    let bad = *r.pick(&[
        ".", ",", "-.", "1.2.3", "1__2", "1x", "_1", "5 6", "-", "+", "--", "-\"s\"", "-[]", "-null", "1 + \"s\"", "1+\"s\"", "\"s\"+1", "[1]+[\"s\"]", "1/0", "1%0", "1.5%2", "2*3+\"s\"",
        "1*null", "1+2*true", "nope", "@nope", "t.5", "t.-1", "t.x", "t.1.5", "t.nope", "l.9", "l.-1", "l.\"s\"", "o.nope", "o.null", "o.t", "o.5", "n.x", "n.1", "t.0.x", "l.0.0", "o.q.r", "t.", "l.", "o.", "1.", "n.",
        "<>", "<", "<5>", "<\"nope.over\">", "<Str 5>", "<Str \"nope\">", "<Str>", "<Str", "<Str \"x\"", "<Obj n>", "<Arr t>", "<Tup l>", "<Foo \"x\">", "<\"x\"]", "< \"x\" 1>", "<Str \"x\" }", "<[]>",
        "\"", "\"abc", "\"\\q\"", "\"a\\", "\"a\n\\z\"", "[", "[1", "[1 \"s\"]", "[1 2", "[1)", "[1}", "[[1] [\"s\"]]", "[1 2.5]", "[{} 1]", "(", "(1", "(1]", "(1>", "(1 nope)",
        "{", "{a", "{a:", "{a:1", "{a:1]", "{a: 1 a: 2}", "{5: 1}", "{a 1}", "{null: 1}", "{^: 1}", "{^: {} ^: {}}", "{^^: 1}", "{@a: 1 @a: 2}", "{@: 1}", "{a-b: 1}", "{a:1 b}", "]", ")", "}", ">", ":", "^", "$", "é", "a:", "Int", "Str", "true1", "null.x", "\u{0}",
    ]);
    let s = format!("{}v:{}{}{}", *r.pick(&["", "t: (1 2) l: [1 2] n: 7 o: {q: 1}\n", "t: (1 2)\nl: [1 2]\nn: 7\no: {q: 1} ", "@t: (1) t: (1 2) l: [[1]] n: 7 o: {^: {q: 1} z: 2} "]), *r.pick(&["", " ", "  ", "\n", " \n   ", "\t"]),
        match r.below(8) { 0 => format!("[{}]", bad), 1 => format!("({})", bad), 2 => format!("{{w: {}}}", bad), 3 => format!("{{\n  w: {}\n}}", bad), 4 => format!("[ {} ", bad), _ => bad.to_string() },
        *r.pick(&["", "", "\n", " ", "\nx: 1", " x: 1", " # c"]));
    moved(r, s)
}
fn long_doc(r: &mut Rng) -> String {
    let n = r.range(200, 1500);
    match r.below(5) {
        0 => format!("a: [{}]", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(" ")),
        1 => (0..n.min(500)).map(|i| format!("f{}: {}\n", i, i)).collect(),
        2 => format!("a: 1{}", (0..n).map(|i| format!("{}{}", ["+", "-", "*"][i % 3], i % 7)).collect::<String>()),
        3 => format!("a: \"{}\"", "x\\n\n".repeat(n)),
        _ => format!("{}a: 1{}", "\n# c".repeat(n) + "\n", " ".repeat(n)),
    }
}
const FILES: &[&str] = &["main.over", "a.over", "b.over", "sub/a.over", "sub/c.over", "sub/deep/d.over", "s.txt", "é.over", "sp ace.over"];
fn tree_case(prop: &str, r: &mut Rng, d: &Dict) -> Case {
    let mut fs: Vec<(String, Content)> = vec![];
    let plain = r.pct(35);
    let mut names: Vec<&str> = vec!["main.over"];
    let k = r.range(1, 4);
    while names.len() < k + 1 { let n = *r.pick(FILES); if !names.contains(&n) { names.push(n) } }
    // main includes any, later files include later ones; sometimes anything, to make cycles
    let acyclic = r.pct(70);
    let subdir = r.pct(25);
    for (i, n) in names.iter().enumerate() {
        let me = if i == 0 && subdir { "sub/main.over" } else { *n };
        let dir = me.rfind('/').map_or("", |k| &me[..k]);
        let rel = |t: &str, r: &mut Rng| -> String {
            let up: String = if dir.is_empty() { String::new() } else { "../".repeat(dir.matches('/').count() + 1) };
            let base = if !dir.is_empty() && t.starts_with(&format!("{}/", dir)) && r.pct(60) { t[dir.len() + 1..].to_string() } else { format!("{}{}", up, t) };
            match r.below(12) { 0 => format!("./{}", base), 1 => format!("./{}", base.replace("sub/", "sub/./")), 2 => base.replace("sub/", "sub/../sub/"), 3 if !dir.is_empty() => t.to_string(), _ => base }
        };
        let mut inc: Vec<String> = vec![];
        for (j, t) in names.iter().enumerate() { if if acyclic { j > i } else { true } { let t = if j == 0 && subdir { "sub/main.over" } else { *t }; let x = rel(t, r); inc.push(x); if r.pct(30) { let x = rel(t, r); inc.push(x) } } }
        if r.pct(6) { inc.push((*r.pick(&["", ".", "..", "nope.over", "sub", "no/such/a.over", "link.over", "sub/link2.over", "bad.bin", "a.over/", "dangling", "\u{0}"])).to_string()) }
        if r.pct(4) { inc.push("link.over".into()) }
        if r.pct(3) { inc.push("@ROOT@/w/a.over".into()) }
        let mut f = focus(if prop == "C17" { "C16" } else { prop });
        f.kinds[7] = 60;
        if plain { f.mutate = 0; f.wrong = 0 }
        if prop == "C15" { f.mutate = 30; f.kinds[7] = 40 }
        if r.pct(70) { f.depth = 2; f.fields = 4 }
        let kind = if i == 0 { 0 } else { r.below(6) };
        let seed = r.next();
        let mut r2 = Rng::new(seed);
        let mut g = Gen::new(&mut r2, d, f);
        g.files = inc;
        let text = match kind { 0..=2 => g.doc(), 3 => g.seq_doc(true), 4 => g.seq_doc(false), _ => if r.pct(50) { gen_str(r, d) } else { g.doc() } };
        fs.push((me.to_string(), Content::Bytes(text.into_bytes())));
    }
    if r.pct(20) { fs.push(("link.over".into(), Content::Link((*r.pick(&["a.over", "sub/c.over", "main.over", "b.over", "nope"])).into()))) }
    if r.pct(8) { fs.push(("sub/link2.over".into(), Content::Link("../a.over".into()))) }
    if r.pct(5) { fs.push(("bad.bin".into(), Content::Bytes(vec![b'a', b':', b' ', 0xff, 0xfe]))) }
    let main = if subdir { "sub/main.over" } else { "main.over" };
    if r.pct(12) { if let Content::Bytes(b) = &fs[0].1 { let t = String::from_utf8_lossy(b).into_owned(); return Case::Tree(fs.clone(), format!("text:{}", t)) } }
    let main = match r.below(12) { 0 => format!("./{}", main), 1 => format!("@ROOT@/w/{}", main), 2 if subdir => "sub/../sub/main.over".into(), 3 if r.pct(20) => "missing.over".into(), _ => main.to_string() };
    Case::Tree(fs, main)
}
/// A chain of files each including the next, of any kind and with some nesting of its own, around the limit.
fn chain_case(r: &mut Rng) -> Case {
    let mut fs = vec![];
    let plain = r.pct(30);
    let heavy = r.pct(30);
    let target = if r.pct(80) { r.range(58, 70) } else { r.range(2, 200) };
    let mut kinds = vec![0usize];
    let mut used = 0;
    let mut body: Vec<(String, String)> = vec![];
    while used < target && body.len() < 90 {
        let k = if plain { 0 } else if heavy { r.range(0, 40) } else { *r.pick(&[0, 0, 1, 1, 2, 3, 6]) };
        let style = r.below(6);
        let (mut a, mut b) = (String::new(), String::new());
        for _ in 0..k {
            let (x, y) = match if style == 5 { r.below(5) } else { style } { 0 => ("[", "]"), 1 => ("(", ")"), 2 => ("{a: ", "}"), 3 => ("{^: {} a: ", "}"), _ => ("{a: 1 b: (2 ", ")}") };
            a.push_str(x); b.insert_str(0, y);
        }
        used += k + 2;
        body.push((a, b));
        kinds.push(if plain { 0 } else { r.below(3) });
    }
    let n = body.len();
    let names: Vec<String> = (0..n).map(|i| if !plain && i % 4 == 3 { format!("sub/f{}.over", i) } else { format!("f{}.over", i) }).collect();
    for i in 0..n {
        let up = if names[i].starts_with("sub/") { "../" } else { "" };
        let word = ["", "Arr ", "Tup "];
        let mut inc = if i + 1 < n { format!("<{}\"{}{}\">", word[kinds[i + 1]], up, names[i + 1]) } else { (*r.pick(&["1", "{}", "[]", "[[]]", "x", "-1", "--1", "(1 2)", "\"s\""])).to_string() };
        if i + 1 < n && kinds[i + 1] == 0 && r.pct(5) { inc.push_str(".a") }
        let (a, b) = &body[i];
        let v = format!("{}{}{}", a, inc, b);
        let t = match kinds[i] { 0 => match r.below(6) { 0 => format!("b: 1 a: {}", v), 1 => format!("@g: {} a: @g", v), _ => format!("a: {}", v) }, _ => if r.pct(20) { format!("{} # end", v) } else { v } };
        fs.push((names[i].clone(), Content::Bytes(t.into_bytes())));
    }
    let main = if r.pct(20) { format!("text:a: <\"{}\">", names[0]) } else { names[0].clone() };
    Case::Tree(fs, main)
}
/// Many files, included several times.
fn many_files(r: &mut Rng, d: &Dict) -> Case {
    let n = big_len(r, d, 120).max(2);
    let mut fs: Vec<(String, Content)> = vec![];
    let mut main = String::new();
    let tree = r.pct(30);
    for i in 0..n {
        let kind = r.below(4);
        let name = if r.pct(10) { format!("sub/f{}.over", i) } else { format!("f{}.over", i) };
        let up = if name.starts_with("sub/") { "../" } else { "" };
        let inner = if tree && i > 0 && i < 40 { let j = r.below(i); let t = &fs[j].0; if t.starts_with("sub/") && !up.is_empty() { t[4..].to_string() } else { format!("{}{}", up, t) } } else { String::new() };
        let inc = if inner.is_empty() { "1".to_string() } else { format!("<Str \"{}\">", inner) };
        let text = match kind { 0 => format!("v: {} n: {}", inc, i), 1 => format!("{} {}", inc, inc), 2 => format!("{} {} null", inc, i), _ => format!("text {}", i) };
        main.push_str(&format!("a{}: <{} \"{}\">\n", i, ["Obj", "Arr", "Tup", "Str"][kind], name));
        fs.push((name, Content::Bytes(text.into_bytes())));
    }
    // Some of them again.
    let lines: Vec<String> = main.lines().map(|l| l.to_string()).collect();
    for i in 0..r.range(1, 4) { let k = *r.pick(&[0, n - 1, n / 2, 1]); let l = lines[k].split_once(": ").unwrap().1.to_string(); main.push_str(&format!("b{}: {}\n", i, l)) }
    if r.pct(20) { main.push_str("c: <\"main.over\">") }
    fs.push(("main.over".into(), Content::Bytes(main.into_bytes())));
    Case::Tree(fs, "main.over".into())
}
/// Two texts that differ in long runs of blanks only.
fn big_pair(r: &mut Rng, d: &Dict) -> Case {
    let n = big_len(r, d, 60_000);
    let long = |r: &mut Rng| match r.below(4) { 0 => " ".repeat(n), 1 => "\n".repeat(n), 2 => format!("#{}\n", "c ".repeat(n / 2)), _ => "# c\n".repeat(n / 8) };
    let (x, y) = (long(r), long(r));
    let k = r.below(6);
    let doc = |i: usize, b: &str| -> String { let w = |j: usize| if j == i { b } else { " " }; format!("{}a:{}1{}b:{}[ 2{}3 ] \n{}", w(0), w(1), if i == 2 { format!(" {}", b) } else { " ".into() }, w(3), if i == 4 { format!("\n{}", b) } else { "\n".into() }, w(5)) };
    Case::Pair(doc(k, &x), if r.pct(50) { doc(9, "") } else { doc(k, &y) })
}
pub fn generate(prop: &str, r: &mut Rng, d: &Dict) -> Case {
    let doc = |r: &mut Rng, d: &Dict| { let f = focus(prop); Case::Doc(Gen::new(r, d, f).doc()) };
    // One case in some hundred is big, of the kinds that matter here.
    if r.below(250) == 0 {
        match prop {
            "C01" | "C03" | "C04" | "C05" | "C14" => (),
            "C16" => return many_files(r, d),
            "C02" | "C06" | "C07" | "C17" if r.pct(40) => (),
            "C13" if r.pct(50) => return big_pair(r, d),
            "C15" | "C12" | "C17" if r.pct(10) => return many_files(r, d),
            _ => { let k = *r.pick(kinds_of(prop)); return Case::Doc(big_doc(k, r, d)) }
        }
    }
    match prop {
        "C01" | "C03" | "C04" | "C05" | "C14" => Case::Api(r.next()),
        "C02" => match r.below(10) { 0..=3 => Case::Api(r.next()), 4 => tree_case("C02", r, d), _ => doc(r, d) },
        "C06" => if r.pct(40) { Case::Api(r.next()) } else { doc(r, d) },
        "C07" => match r.below(10) { 0..=2 => Case::Api(r.next()), 3 => { let n = r.range(1, 12); let s: String = (0..n).map(|_| gen_char(r, d)).collect(); Case::Doc(format!("a: \"{}{}", s, if r.pct(80) { "\"" } else { "" })) } _ => doc(r, d) },
        "C08" => if r.pct(35) { let j = junk_number(r); Case::Doc(format!("{}: {}{}", "a", j, if r.pct(50) { "\nb: 1" } else { "" })) } else { doc(r, d) },
        "C13" => {
            if r.pct(50) { return doc(r, d) }
            let seed = r.next();
            let mut f = focus("C13");
            f.mutate = 0; f.wrong = 0;
            let one = |blanks: usize, wseed: u64| { let mut q = Rng::new(seed); let mut g = Gen::new(&mut q, d, f.clone()); g.f.blanks = blanks; g.w = Rng::new(wseed); g.doc() };
            let a = one(0, 1);
            let b = one(70, seed ^ 7);
            Case::Pair(a, b)
        }
        "C15" => match r.below(20) { 0..=3 => tree_case("C15", r, d), 4 => Case::Doc(err_doc(r)), 5 if r.pct(30) => { let s = deep_doc(r); let q = r.pct(50); Case::Doc(if q { moved(r, s) } else { s }) } _ => doc(r, d) },
        "C16" => if r.pct(2) { chain_case(r) } else { tree_case("C16", r, d) },
        "C17" => match r.below(10) { 0..=2 => Case::Api(r.next()), 3 | 4 => tree_case("C17", r, d), _ => doc(r, d) },
        "C12" => match r.below(20) {
            0..=4 => Case::Doc(deep_doc(r)), 5 if r.pct(20) => Case::Doc(long_doc(r)), 6 if r.pct(30) => chain_case(r), 7 | 8 => tree_case("C12", r, d), 9..=11 => Case::Api(r.next()),
            12 => { let n = r.range(1, 40); Case::Doc((0..n).map(|_| gen_char(r, d)).collect()) }
            13 => { let n = r.range(1, 25); let p: Vec<char> = PUNCT.chars().collect(); Case::Doc((0..n).map(|_| *r.pick(&p)).collect()) }
            _ => doc(r, d) },
        _ => doc(r, d),
    }
}

// ------------------------------------------------------------------ the API
macro_rules! ensure { ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)) } } }
fn same_value(v: &V, a: &Value) -> Result<(), String> { same(v, a, &mut Ids::default(), "") }
fn typed(v: &V, a: &Value) -> Result<(), String> { same(v, a, &mut Ids { types: true, ..Default::default() }, "") }

fn api(prop: &str, r: &mut Rng, d: &Dict) -> Res {
    match prop {
        "C01" => api_types(r, d),
        "C02" => api_arrays(r, d),
        "C03" => api_equality(r, d),
        "C04" => api_getters(r, d),
        "C05" => api_lookup(r, d),
        "C06" => api_names(r, d),
        "C07" => api_strings(r, d),
        "C12" => api_total(r, d),
        "C14" => api_round_trip(r, d),
        "C17" => api_identity(r, d),
        _ => Ok("none".into()),
    }
}
/// Two types of which one part is big.
fn big_types(r: &mut Rng, d: &Dict) -> (T, T) {
    let one = |r: &mut Rng| gen_type(r, 1);
    if r.pct(30) {
        let n = big_len(r, d, 200);
        let (mut a, mut b) = { let x = one(r); let y = if r.pct(50) { x.clone() } else { vary_type(r, &x) }; (x, y) };
        let tup = r.pct(30);
        for _ in 0..n { if tup { a = T::Tup(vec![a]); b = T::Tup(vec![b]) } else { a = tarr(a); b = tarr(b) } }
        if r.pct(10) { b = tarr(b) }
        return (a, b);
    }
    let n = big_len(r, d, 3000).max(1);
    let x = one(r);
    let mut a: Vec<T> = if r.pct(50) { vec![x; n] } else { (0..n).map(|_| one(r)).collect() };
    let mut b = a.clone();
    let k = if r.pct(60) { n - 1 - r.below(2).min(n - 1) } else { r.below(n) };
    let t = b[k].clone();
    b[k] = vary_type(r, &t);
    if r.pct(30) { a[r.below(n)] = T::Any }
    if r.pct(10) { b.pop(); }
    if r.pct(20) { (tarr(T::Tup(a)), tarr(T::Tup(b))) } else { (T::Tup(a), T::Tup(b)) }
}
fn api_types(r: &mut Rng, d: &Dict) -> Res {
    let a = gen_type(r, 3);
    let b = if r.pct(70) { vary_type(r, &a) } else { gen_type(r, 3) };
    let (a, b) = if r.below(200) == 0 { big_types(r, d) } else { (a, b) };
    let (x, y) = (to_type(&a), to_type(&b));
    let (da, db) = (type_disp(&a), type_disp(&b));
    ensure!((x == y) == compat(&a, &b), "{} == {} is {}", da, db, x == y);
    ensure!((y == x) == compat(&a, &b), "{} == {} is {}", db, da, y == x);
    ensure!((x != y) != compat(&a, &b), "{} != {} is {}", da, db, x != y);
    ensure!(x.is(&y) == (a == b), "{}.is({}) is {}", da, db, x.is(&y));
    ensure!(y.is(&x) == (a == b), "{}.is({}) is {}", db, da, y.is(&x));
    ensure!(x.is(&x.clone()), "{} is not itself", da);
    ensure!(x.has_any() == has_any(&a), "{}.has_any() is {}", da, x.has_any());
    ensure!(format!("{}", x) == da, "{} displays as {}", da, x);
    for (p, q, s, t) in [(&x, &y, &a, &b), (&y, &x, &b, &a)] {
        match (Type::most_specific(p, q), msp(s, t)) {
            (None, None) => (),
            (Some((w, any)), Some(u)) => { ensure!(ty(&w) == u, "most_specific({}, {}) is {}, not {}", type_disp(s), type_disp(t), w, type_disp(&u)); ensure!(any == has_any(&u), "most_specific({}, {}) gives the flag {}", type_disp(s), type_disp(t), any) }
            (w, u) => return Err(format!("most_specific({}, {}) is {:?}, not {:?}", type_disp(s), type_disp(t), w, u)),
        }
    }
    Ok(if compat(&a, &b) { "compatible" } else { "incompatible" }.into())
}
fn api_arrays(r: &mut Rng, d: &Dict) -> Res {
    use over::{arr, try_arr, tup};
    let mut g = Vals::new(r, d);
    let n = if g.r.pct(5) { gen_len(g.r, g.d, 4) } else { g.r.below(5) };
    let mut vs: Vec<V> = vec![];
    for i in 0..n { let v = if i == 0 || g.r.pct(12) { g.any(2) } else { let k = g.r.below(i); let x = vs[k].clone(); g.vary(&x) }; vs.push(v) }
    if g.r.below(200) == 0 {
        // Many alike, and something else at the end.
        let x = g.any(2);
        let n = big_len(g.r, d, 3000);
        let mut late = g.vary(&x);
        if g.r.pct(30) { late = g.any(1) }
        vs = vec![x.clone(); n];
        vs.push(late);
        if g.r.pct(30) { vs.push(x) }
    }
    let mut b = Builder::default();
    let real: Vec<Value> = vs.iter().map(|v| b.value(v)).collect();
    let want = arr_type(&vs);
    let by: Result<Arr, OverError> = match g.r.below(3) { 0 => std::convert::TryFrom::try_from(real.clone()), _ => Arr::from_values(real.clone()) };
    match (&want, by) {
        (Ok(t), Ok(a)) => typed(&mk_arr(vs.clone(), t.clone()), &a.into())?,
        (Err((t, u)), Err(e)) => { let w = OverError::ArrTypeMismatch(to_type(t), to_type(u)); ensure!(format!("{}", e) == format!("{}", w) && matches!(e, OverError::ArrTypeMismatch(..)), "the error is {:?}, not {:?}", e, w) }
        (w, g) => return Err(format!("array of {:?}: expected {:?}, got {:?}", vs, w.as_ref().map(type_disp).map_err(|e| format!("{} / {}", type_disp(&e.0), type_disp(&e.1))), g)),
    }
    typed(&mk_tup(vs.clone()), &(if g.r.pct(50) { Tup::from_values(real.clone()) } else { Tup::from(real.clone()) }).into())?;
    if real.len() >= 2 {
        let (x, y) = (&real[0], &real[1]);
        typed(&mk_tup(vs[..2].to_vec()), &tup!(x.clone(), y.clone()).into())?;
        match (arr_type(&vs[..2]), try_arr![x.clone(), y.clone()]) { (Ok(t), Ok(a)) => { typed(&mk_arr(vs[..2].to_vec(), t.clone()), &a.into())?; typed(&mk_arr(vs[..2].to_vec(), t), &arr![x.clone(), y.clone()].into())? } (Err(_), Err(_)) => (), _ => return Err("try_arr! disagrees".into()) }
    }
    for k in [1usize, 3] {
        if real.len() < k { continue }
        let p = |i: usize| real[i].clone();
        let (t, a, m) = if k == 1 { (tup!(p(0)), try_arr![p(0)], guard("arr!", || arr![p(0),])) } else { (tup!(p(0), p(1), p(2),), try_arr![p(0), p(1), p(2),], guard("arr!", || arr![p(0), p(1), p(2)])) };
        typed(&mk_tup(vs[..k].to_vec()), &t.into())?;
        match (arr_type(&vs[..k]), a, m) {
            (Ok(t), Ok(a), Ok(m)) => { typed(&mk_arr(vs[..k].to_vec(), t.clone()), &a.into())?; typed(&mk_arr(vs[..k].to_vec(), t), &m.into())? }
            (Err((t, u)), Err(e), Err(_)) => { let w = OverError::ArrTypeMismatch(to_type(&t), to_type(&u)); ensure!(e == w, "try_arr! fails with {:?}, not {:?}", e, w) }
            (w, a, m) => return Err(format!("array of {:?}: expected {:?}, try_arr! gives {:?}, arr! {:?}", &vs[..k], w.is_ok(), a, m)),
        }
    }
    typed(&mk_arr(vec![], T::Any), &arr![].into())?;
    typed(&mk_arr(vec![], T::Any), &Arr::empty().into())?;
    typed(&mk_tup(vec![]), &Tup::empty().into())?;
    Ok(if want.is_ok() { "ok" } else { "mismatch" }.into())
}
fn api_equality(r: &mut Rng, d: &Dict) -> Res {
    let mut g = Vals::new(r, d);
    g.writable = g.r.pct(50);
    let a = g.any(3);
    let b = g.vary(&a);
    let (a, b) = if g.r.below(200) == 0 { g.big_two() } else { (a, b) };
    // The recorded types of arrays may be less specific than they could be (unchecked construction).
    let (a, b) = if g.r.pct(8) { let b = if g.r.pct(50) { a.clone() } else { b }; (g.loosen(&a), g.loosen(&b)) } else { (a, b) };
    let share = g.r.pct(50);
    let mut b1 = Builder::default();
    let x = b1.value(&a);
    let y = if share { b1.value(&b) } else { Builder::default().value(&b) };
    let want = seq_eq(&a, &b);
    ensure!((x == y) == want, "{:?} == {:?} is {}", a, b, x == y);
    ensure!((y == x) == want, "{:?} == {:?} is {}", b, a, y == x);
    ensure!((x != y) != want, "{:?} != {:?} is {}", a, b, x != y);
    ensure!(x == x.clone(), "{:?} is not equal to its clone", a);
    ensure!(x == Builder::default().value(&a), "{:?} is not equal to a rebuilt one", a);
    // Natives, in both directions.
    for v in [&a, &b] { natives(v, &x, &y, &a, &b)? }
    if let V::Int(i) = &a { ints(i, &b, &y)? }
    let j = gen_int(g.r, g.d);
    ints(&j, &a, &x)?;
    Ok(if want { "equal" } else { "different" }.into())
}
fn natives(v: &V, x: &Value, y: &Value, a: &V, b: &V) -> Result<(), String> {
    for (w, t) in [(x, a), (y, b)] {
        let want = seq_eq(v, t);
        macro_rules! both { ($n:expr) => {{ let n = $n; ensure!((*w == n) == want && (n == *w) == want && (*w != n) != want, "{:?} against the native {:?}: value==native is {}, native==value is {}", t, v, *w == n, n == *w) }} }
        match v {
            V::Null => ensure!(w.is_null() == want, "is_null of {:?}", t),
            V::Bool(k) => both!(*k), V::Int(k) => both!(k.clone()), V::Frac(k) => both!(k.clone()),
            V::Str(k) => { both!(k.clone()); let s: &str = k; ensure!((*w == s) == want, "{:?} against the &str {:?}", t, s); ensure!((s == *w) == want, "the &str {:?} against {:?}", s, t) }
            V::Arr(_) => { if let Ok(n) = Builder::default().value(v).get_arr() { both!(n) } }
            V::Tup(_) => { if let Ok(n) = Builder::default().value(v).get_tup() { both!(n) } }
            V::Obj(_) => { if let Ok(n) = Builder::default().value(v).get_obj() { both!(n) } }
        }
    }
    Ok(())
}
fn ints(i: &BigInt, t: &V, w: &Value) -> Result<(), String> {
    macro_rules! ty { ($($to:ident : $t:ty),*) => { $(
        let n: $t = i.$to().unwrap_or_else(|| (i.clone() % BigInt::from(100)).$to().unwrap_or(0));
        let want = matches!(t, V::Int(k) if *k == BigInt::from(n));
        ensure!((*w == n) == want && (n == *w) == want, "{:?} against the {} {}: value==native is {}, native==value is {}", t, stringify!($t), n, *w == n, n == *w);
        let v: Value = n.into();
        ensure!(v == n && n == v && v.get_int() == Ok(BigInt::from(n)), "the {} {} read back as a value is {:?}", stringify!($t), n, v);
    )* } }
    ty!(to_usize: usize, to_u8: u8, to_u16: u16, to_u32: u32, to_u64: u64, to_i8: i8, to_i16: i16, to_i32: i32, to_i64: i64);
    Ok(())
}
fn api_getters(r: &mut Rng, d: &Dict) -> Res {
    use over::{frac, int};
    let mut g = Vals::new(r, d);
    let v = g.any(3);
    let v = if g.r.below(200) == 0 { g.big_two().0 } else { v };
    let x = Builder::default().value(&v);
    let t = to_type(&vtype(&v));
    ensure!(ty(&x.get_type()) == vtype(&v), "the type of {:?} is {}", v, x.get_type());
    ensure!(x.is_null() == matches!(v, V::Null), "is_null of {:?} is {}", v, x.is_null());
    let o = Obj::from_pairs_unchecked(vec![Pair("f".into(), x.clone())], None);
    macro_rules! getter { ($get:ident, $exp:expr, $pat:pat => $val:expr, $wrap:expr) => {{
        for (who, got) in [("Value", x.$get()), ("Obj", o.$get("f"))] {
            match (&v, got) {
                ($pat, Ok(w)) => { let w: V = { let same: Option<V> = $wrap(&w); match same { Some(k) => k, None => return Err(format!("{}::{} of {:?} gives {:?}", who, stringify!($get), v, w)) } }; let _ = w; ensure!({ let k: bool = $val; k }, "{}::{} of {:?}", who, stringify!($get), v) }
                ($pat, Err(e)) => return Err(format!("{}::{} of {:?} gives {:?}", who, stringify!($get), v, e)),
                (_, Ok(w)) => return Err(format!("{}::{} of {:?} gives {:?}", who, stringify!($get), v, w)),
                (_, Err(e)) => { let want = OverError::TypeMismatch($exp, t.clone()); ensure!(matches!(e, OverError::TypeMismatch(..)) && format!("{:?}", e) == format!("{:?}", want), "{}::{} of {:?} gives {:?}, not {:?}", who, stringify!($get), v, e, want) }
            }
        }
        let e = o.$get("nofield");
        ensure!(matches!(&e, Err(OverError::FieldNotFound(f)) if f == "nofield"), "{} of a missing field gives {:?}", stringify!($get), e);
    }} }
    let me = |w: Value| -> Option<V> { same(&v, &w, &mut Ids { types: true, ..Default::default() }, "").ok().map(|_| v.clone()) };
    getter!(get_bool, Type::Bool, V::Bool(_) => true, |w: &bool| me((*w).into()));
    getter!(get_int, Type::Int, V::Int(_) => true, |w: &BigInt| me(w.clone().into()));
    getter!(get_str, Type::Str, V::Str(_) => true, |w: &String| me(w.clone().into()));
    getter!(get_frac, Type::Frac, V::Int(_) | V::Frac(_) => true, |w: &BigRational| match &v { V::Int(k) => if w.numer() == k && *w.denom() == BigInt::from(1) { Some(V::Null) } else { None }, _ => me(w.clone().into()) });
    getter!(get_arr, Type::Arr(Box::new(Type::Any)), V::Arr(_) => true, |w: &Arr| me(w.clone().into()));
    getter!(get_tup, Type::Tup(vec![]), V::Tup(_) => true, |w: &Tup| me(w.clone().into()));
    getter!(get_obj, Type::Obj, V::Obj(_) => true, |w: &Obj| me(w.clone().into()));
    // Indexing.
    let (mut a, mut tp) = (g.arr(2), g.tup(2));
    if g.r.below(300) == 0 {
        let n = big_len(g.r, d, 2000);
        a = mk_arr((0..n).map(|i| V::Int(BigInt::from(i))).collect(), if n == 0 { T::Any } else { T::Int });
        tp = mk_tup((0..n).map(|i| if i % 3 == 0 { V::Str(i.to_string()) } else { V::Int(BigInt::from(i)) }).collect());
    }
    let mut b = Builder::default();
    let (ra, rt) = (b.value(&a).get_arr().map_err(|e| e.to_string())?, b.value(&tp).get_tup().map_err(|e| e.to_string())?);
    let (V::Arr(va), V::Tup(vt)) = (&a, &tp) else { return Err("builder".into()) };
    for i in (0..va.0.len() + 2).chain([usize::MAX, usize::MAX / 2]) {
        match ra.get(i) { Ok(w) => { ensure!(i < va.0.len(), "index {} of {:?} gives {:?}", i, a, w); same_value(&va.0[i], &w)? } Err(e) => ensure!(i >= va.0.len() && matches!(e, OverError::ArrOutOfBounds(k) if k == i), "index {} of {:?} gives {:?}", i, a, e) }
    }
    for i in (0..vt.0.len() + 2).chain([usize::MAX, usize::MAX / 2]) {
        match rt.get(i) { Ok(w) => { ensure!(i < vt.0.len(), "index {} of {:?} gives {:?}", i, tp, w); same_value(&vt.0[i], &w)? } Err(e) => ensure!(i >= vt.0.len() && matches!(e, OverError::TupOutOfBounds(k) if k == i), "index {} of {:?} gives {:?}", i, tp, e) }
    }
    ensure!(ra.len() == va.0.len() && ra.is_empty() == va.0.is_empty(), "the length of {:?} is {}", a, ra.len());
    ensure!(rt.len() == vt.0.len() && rt.is_empty() == vt.0.is_empty(), "the length of {:?} is {}", tp, rt.len());
    let mut seen = vec![]; ra.with_each(|v| seen.push(v.clone()));
    ensure!(seen.len() == va.0.len() && ra.iter().count() == va.0.len(), "iteration of {:?}", a);
    for (i, w) in seen.iter().enumerate() { same_value(&va.0[i], w)? }
    for (i, w) in ra.iter().enumerate() { same_value(&va.0[i], w)? }
    let mut seen = vec![]; rt.with_each(|v| seen.push(v.clone()));
    ensure!(seen.len() == vt.0.len() && rt.iter().count() == vt.0.len(), "iteration of {:?}", tp);
    for (i, w) in seen.iter().enumerate() { same_value(&vt.0[i], w)? }
    for (i, w) in rt.iter().enumerate() { same_value(&vt.0[i], w)? }
    // Natives in, natives out.
    let s = gen_str(g.r, g.d);
    let w: Value = s.clone().into(); ensure!(w.get_str().as_ref() == Ok(&s), "the string {:?} read back is {:?}", s, w.get_str());
    let w: Value = s.as_str().into(); ensure!(w.get_str().as_ref() == Ok(&s), "the &str {:?} read back is {:?}", s, w.get_str());
    let k = g.r.pct(50);
    let w: Value = k.into(); ensure!(w.get_bool() == Ok(k), "the bool {} read back is {:?}", k, w.get_bool());
    let i = gen_int(g.r, g.d);
    ints(&i, &V::Null, &Value::Null)?;
    let n = g.r.next() as i64;
    ensure!(int!(n) == BigInt::from(n), "int!({})", n);
    ensure!(frac!(n, 7) == BigRational::new(n.into(), 7.into()), "frac!({}, 7)", n);
    Ok(format!("{:?}", vtype(&v)).split('(').next().unwrap_or("").to_string())
}
fn api_lookup(r: &mut Rng, d: &Dict) -> Res {
    let mut g = Vals::new(r, d);
    g.writable = g.r.pct(70);
    let mut o = g.obj(2);
    let mut levels = if g.r.pct(3) { gen_len(g.r, d, 20).min(80) } else { g.r.below(4) };
    if g.r.below(400) == 0 { levels = big_len(g.r, d, 300) }
    if g.r.below(200) == 0 {
        let n = big_len(g.r, d, 700).max(1);
        let ps: Vec<(String, V)> = (0..n).map(|i| (format!("f{}", i), V::Int(BigInt::from(i)))).collect();
        o = Rc::new(O { pairs: ps, parent: if g.r.pct(50) { Some(o) } else { None }, tag: 0 });
    }
    for _ in 0..levels {
        let n = g.r.below(4);
        let mut ps: Vec<(String, V)> = vec![];
        for _ in 0..n { let f = if g.r.pct(50) && !o.pairs.is_empty() { let k = g.r.below(o.pairs.len()); o.pairs[k].0.clone() } else { gen_name(g.r, g.d) }; if sp_find(&ps, &f).is_some() && g.writable { continue } ps.push((f, g.any(1))) }
        o = Rc::new(O { pairs: ps, parent: Some(o), tag: 0 });
    }
    let x = Builder::default().obj(&o);
    let mut names: Vec<String> = vec!["".into(), "a".into(), "^".into(), "zz".into()];
    let mut chain = vec![];
    let mut cur = Some((o.clone(), x.clone()));
    while let Some((p, y)) = cur {
        names.extend(p.pairs.iter().map(|q| q.0.clone()));
        chain.push((p.clone(), y.clone()));
        ensure!(y.has_parent() == p.parent.is_some(), "has_parent is {}", y.has_parent());
        cur = match (&p.parent, y.get_parent()) { (None, None) => None, (Some(q), Some(z)) => Some((q.clone(), z)), (_, z) => return Err(format!("the parent is {:?}", z)) };
    }
    for f in &names {
        let want = sp_source(&o, f);
        match (&want, x.get(f)) { (None, None) => (), (Some((v, _)), Some(w)) => same_value(v, &w).map_err(|e| format!("get({:?}): {}", f, e))?, (v, w) => return Err(format!("get({:?}) is {:?}, not {:?}", f, w, v)) }
        match (&want, x.get_with_source(f)) {
            (None, None) => (),
            (Some((v, s)), Some((w, z))) => { same_value(v, &w)?; let k = chain.iter().position(|c| Rc::ptr_eq(&c.0, s)).unwrap(); ensure!(z.ptr_eq(&chain[k].1) && z.id() == chain[k].1.id(), "get_with_source({:?}) gives another source: {:?}", f, z) }
            (v, w) => return Err(format!("get_with_source({:?}) is {:?}, not {:?}", f, w, v)),
        }
        ensure!(x.contains(f) == sp_find(&o.pairs, f).is_some(), "contains({:?}) is {}", f, x.contains(f));
    }
    let ps = &o.pairs;
    ensure!(x.len() == ps.len() && x.is_empty() == ps.is_empty(), "len is {}, is_empty is {} with {} fields", x.len(), x.is_empty(), ps.len());
    let mut each = vec![]; x.with_each(|f, v| each.push(Pair(f.clone(), v.clone())));
    for (what, list) in [("with_each", each), ("iter", x.iter().cloned().collect::<Vec<_>>()), ("pairs_ref", x.pairs_ref().clone())] {
        ensure!(list.len() == ps.len(), "{} visits {} of {} fields", what, list.len(), ps.len());
        for (p, q) in ps.iter().zip(&list) { ensure!(p.0 == q.0, "{}: {:?} instead of {:?}", what, q.0, p.0); same_value(&p.1, &q.1)? }
    }
    let own: Vec<String> = o.pairs.iter().map(|p| p.0.clone()).collect();
    macros(&own, g.r, d)?;
    Ok(format!("chain {}", chain.len().min(4)))
}
fn api_names(r: &mut Rng, d: &Dict) -> Res {
    let mut n = 0;
    let mut list: Vec<String> = (0..6).map(|_| match r.below(4) { 0 => gen_name(r, d), 1 => gen_str(r, d), _ => bad_name(r, d) }).collect();
    if r.below(200) == 0 {
        let n = big_len(r, d, 20_000);
        let mut s: String = (0..n).map(|i| if i % 5 == 0 { 'é' } else { 'a' }).collect();
        match r.below(4) { 0 => (), 1 => s.push(gen_char(r, d)), 2 => { s.push(gen_char(r, d)); s.push('b') } _ => s.push('-') }
        list[0] = s;
    }
    let list = list;
    for s in &list {
        let want = valid_name(s);
        n += want as usize;
        ensure!(Obj::is_valid_field(s) == want, "is_valid_field({:?}) is {}", s, !want);
    }
    let c = gen_char(r, d);
    for first in [true, false] { if c != '^' { ensure!(Obj::is_valid_field_char(c, first) == name_char(c, first), "is_valid_field_char({:?}, {}) is {}", c, first, !name_char(c, first)) } }
    let k = r.range(0, 4);
    let mut names: Vec<String> = (0..k).map(|_| if r.pct(70) { gen_name(r, d) } else { bad_name(r, d) }).collect();
    if r.below(200) == 0 { let n = big_len(r, d, 2000); names = (0..n).map(|i| format!("n{}", i)).collect(); if r.pct(60) { let b = bad_name(r, d); names.push(b) } if r.pct(20) { names.push("9".into()) } }
    if r.below(200) == 0 && valid_name(&list[0]) { names.push(list[0].clone()); if r.pct(50) { names[0].push('!') } }
    let pairs: Vec<Pair> = names.iter().map(|s| Pair(s.clone(), 1.into())).collect();
    let parent = match r.below(10) {
        0 => Some(Obj::empty()),
        1..=3 => { let n = r.below(5); let ps: Vec<Pair> = (0..n).map(|i| Pair(names.get(i).filter(|s| r.pct(50) && valid_name(s)).cloned().unwrap_or_else(|| gen_name(r, d)), 2.into())).collect(); Some(Obj::from_pairs_unchecked(ps, if r.pct(20) { Some(Obj::empty()) } else { None })) }
        _ => None,
    };
    match (names.iter().find(|s| !valid_name(s)), Obj::from_pairs(pairs, parent)) {
        (None, Ok(o)) => { ensure!(o.pairs_ref().iter().map(|p| &p.0).eq(names.iter()), "from_pairs({:?}) has the fields {:?}", names, o.pairs_ref()) }
        (Some(b), Err(e)) => ensure!(e == OverError::InvalidFieldName(b.clone()), "from_pairs({:?}) fails with {:?}", names, e),
        (b, g) => return Err(format!("from_pairs({:?}): bad name {:?}, result {:?}", names, b, g)),
    }
    macros(&names, r, d)?;
    Ok(format!("{} valid", n))
}
/// `try_obj!` and `obj!`: each "^" gives the parent, the last one wins; every other field is a pair, in order.
fn macros(names: &[String], r: &mut Rng, d: &Dict) -> Result<(), String> {
    use over::{obj, try_obj};
    let mut fs: Vec<String> = names.iter().take(3).cloned().collect();
    for f in fs.iter_mut() { if r.pct(20) { *f = "^".into() } }
    let mut g = Vals::new(r, d);
    let vs: Vec<V> = fs.iter().map(|f| if f == "^" && g.r.pct(85) { V::Obj(g.obj(1)) } else { g.any(1) }).collect();
    let mut b = Builder::default();
    let x: Vec<Value> = vs.iter().map(|v| b.value(v)).collect();
    let f: Vec<&str> = fs.iter().map(|s| s.as_str()).collect();
    let p = |i: usize| x[i].clone();
    let (t, m): (Result<Obj, OverError>, Result<Obj, String>) = match fs.len() {
        0 => (Ok(obj! {}), Ok(obj! {})),
        1 => ((|| { try_obj! { f[0] => p(0) } })(), guard("obj!", || obj! { f[0] => p(0), })),
        2 => ((|| { try_obj! { f[0] => p(0), f[1] => p(1) } })(), guard("obj!", || obj! { f[0] => p(0), f[1] => p(1), })),
        _ => ((|| { try_obj! { f[0] => p(0), f[1] => p(1), f[2] => p(2) } })(), guard("obj!", || obj! { f[0] => p(0), f[1] => p(1), f[2] => p(2) })),
    };
    let up = (0..fs.len()).rev().find(|i| f[*i] == "^");
    let want: Result<(), OverError> = match up.map(|i| x[i].get_obj()) {
        Some(Err(e)) => Err(e),
        _ => fs.iter().find(|s| *s != "^" && !valid_name(s)).map_or(Ok(()), |s| Err(OverError::InvalidFieldName(s.clone()))),
    };
    match (&want, &t, &m) {
        (Ok(()), Ok(t), Ok(m)) => {
            let ps: Vec<(String, V)> = (0..fs.len()).filter(|i| f[*i] != "^").map(|i| (fs[i].clone(), vs[i].clone())).collect();
            let o = O { pairs: ps, parent: up.map(|i| match &vs[i] { V::Obj(o) => o.clone(), _ => unreachable!() }), tag: 0 };
            for (what, q) in [("try_obj!", t), ("obj!", m)] {
                ensure!(q.pairs_ref().iter().map(|p| p.0.as_str()).eq(o.pairs.iter().map(|p| p.0.as_str())), "{} with the fields {:?} has the fields {:?}", what, fs, q.pairs_ref());
                same_obj(&Rc::new(O { pairs: o.pairs.clone(), parent: o.parent.clone(), tag: 0 }), q, &mut Ids::default(), "").map_err(|e| format!("{} with the fields {:?}: {}", what, fs, e))?;
                ensure!(q.get_parent().map(|z| z.id()) == up.map(|i| x[i].get_obj().unwrap().id()), "{} with the fields {:?} has the parent {:?}", what, fs, q.get_parent());
            }
            Ok(())
        }
        (Err(w), Err(e), Err(_)) if w == e => Ok(()),
        _ => Err(format!("obj! with the fields {:?} and values {:?}: expected {:?}, try_obj! gives {:?}, obj! {:?}", fs, vs, want, t, m)),
    }
}
fn api_strings(r: &mut Rng, d: &Dict) -> Res {
    let n = if r.below(200) == 0 { big_len(r, d, 50_000) } else { gen_len(r, d, 12) };
    let hard = r.pct(70);
    let s: String = (0..n).map(|_| if hard { gen_char(r, d) } else { *r.pick(&['a', 'b', '\\', '"', '\'', '$', '\n', '\r', '\t', '#']) }).collect();
    let o = Obj::from_pairs_unchecked(vec![Pair("s".into(), s.as_str().into()), Pair("t".into(), Arr::from_values(vec![s.as_str().into()]).unwrap().into())], None);
    let text = o.write_to_string();
    let back = Obj::from_str(&text).map_err(|e| format!("the string {:?} is written as\n{}\nwhich does not read back: {}", s, text, e))?;
    ensure!(back.get_str("s").as_ref() == Ok(&s), "the string {:?} is written as\n{}\nand reads back as {:?}", s, text, back.get_str("s"));
    ensure!(back == o, "the object reads back differently:\n{}", text);
    let lit = format!("{}", Value::from(s.as_str()));
    let back = Obj::from_str(&format!("s: {}", lit)).map_err(|e| format!("the string {:?} displays as {} which does not read back: {}", s, lit, e))?;
    ensure!(back.get_str("s").as_ref() == Ok(&s), "the string {:?} displays as {} and reads back as {:?}", s, lit, back.get_str("s"));
    Ok("string".into())
}
fn wrap(g: &mut Vals, v: V, n: usize) -> V {
    let mut v = v;
    for _ in 0..n {
        v = match g.r.below(6) {
            0 | 1 => { let vs = if g.r.pct(30) { vec![v.clone(), v] } else { vec![v] }; let t = arr_type(&vs).unwrap(); mk_arr(vs, t) }
            2 => mk_tup(if g.r.pct(30) { vec![V::Null, v] } else { vec![v] }),
            3 => match v { V::Obj(o) => mk_obj(vec![("x".into(), V::Null)], Some(o)), v => mk_obj(vec![("p".into(), v)], None) },
            _ => mk_obj(if g.r.pct(30) { vec![("a".into(), V::Bool(true)), ("b".into(), v)] } else { vec![("b".into(), v)] }, None),
        };
    }
    v
}
fn api_total(r: &mut Rng, d: &Dict) -> Res {
    let mut g = Vals::new(r, d);
    g.writable = g.r.pct(50);
    let v = g.any(3);
    let n = g.r.below(40);
    let v = if g.r.pct(20) { linear(&mut g, n) } else { v };
    let w = g.vary(&v);
    let mut b = Builder::default();
    let (x, y) = (b.value(&v), b.value(&w));
    let mut total = format!("{}", x).len() + format!("{:?}", x).len() + format!("{}", x.get_type()).len();
    total += (x == y) as usize + (x.get_type() == y.get_type()) as usize;
    for k in [&x, &y] { let _ = (k.get_bool().is_ok(), k.get_int().is_ok(), k.get_frac().is_ok(), k.get_str().is_ok(), k.get_arr().is_ok(), k.get_tup().is_ok(), k.get_obj().is_ok(), k.is_null());
        if let Value::Obj(o) = k { let _ = (o.get(""), o.get_with_source("x"), o.contains("^"), o.write_to_string().len(), o.num_references(), o.get_parent()); }
        if let Value::Arr(a) = k { let _ = (a.get(usize::MAX), a.inner_type(), a.num_references()); }
        if let Value::Tup(a) = k { let _ = (a.get(usize::MAX), a.inner_type_vec(), a.num_references()); } }
    let s = gen_str(g.r, g.d);
    let _ = (Obj::is_valid_field(&s), Obj::from_str(&s).is_ok());
    if !s.contains('/') && !s.contains('\0') { let _ = Obj::from_file(&format!("/nonexistent-dir/{}", s)); }
    for e in [OverError::ArrOutOfBounds(3), OverError::FieldNotFound(s.clone()), OverError::NoParentFound, OverError::TupTypeMismatch(Type::Any, x.get_type(), 1)] { total += format!("{} {:?}", e, e).len() }
    Ok(format!("total {}", (total > 100) as u8))
}
fn linear(g: &mut Vals, n: usize) -> V {
    let mut v = g.any(0);
    for _ in 0..n { v = match g.r.below(4) { 0 => { let t = vtype(&v); mk_arr(vec![v], t) } 1 => mk_tup(vec![v]), 2 => match v { V::Obj(o) => mk_obj(vec![], Some(o)), v => mk_obj(vec![("p".into(), v)], None) }, _ => mk_obj(vec![("b".into(), v)], None) } }
    v
}
fn levels(v: &V) -> usize { match v { V::Arr(a) => 1 + a.0.iter().map(levels).max().unwrap_or(0), V::Tup(t) => 1 + t.0.iter().map(levels).max().unwrap_or(0), V::Obj(o) => olevels(o), _ => 0 } }
fn olevels(o: &O) -> usize { 1 + o.pairs.iter().map(|p| levels(&p.1)).max().unwrap_or(0).max(o.parent.as_ref().map_or(0, |p| olevels(p))) }
fn api_round_trip(r: &mut Rng, d: &Dict) -> Res {
    let mut g = Vals::new(r, d);
    let depth = g.r.range(0, 4);
    let mut o = g.obj(depth);
    if g.r.pct(15) { let n = g.r.range(1, 70); let seed = g.any(1); let v = if n > 8 { linear(&mut g, n) } else { wrap(&mut g, seed, n) }; o = Rc::new(O { pairs: vec![("v".into(), v)], parent: None, tag: 0 }) }
    if g.r.below(150) == 0 { let a = g.big_two().0; o = Rc::new(O { pairs: vec![("v".into(), a)], parent: None, tag: 0 }) }
    if olevels(&o) > 64 { return Ok("too deep".into()) }
    let x = Builder::default().obj(&o);
    let text = x.write_to_string();
    if text.len() > 4_000_000 { return Ok("too deep".into()) }
    let back = Obj::from_str(&text).map_err(|e| format!("the written text does not parse: {}\n{:.1500}", e, text))?;
    same_obj(&o, &back, &mut Ids::default(), "").map_err(|e| format!("reads back differently {}\n{:.1500}", e, text))?;
    ensure!(back == x && x == back, "reads back as an object that is not equal:\n{:.1500}", text);
    for (f, v) in &o.pairs {
        let one = Obj::from_pairs_unchecked(vec![Pair(f.clone(), x.pairs_ref().iter().find(|p| p.0 == *f).unwrap().1.clone())], None);
        let (t, s) = (one.write_to_string(), format!("{}", one.pairs_ref()[0].1));
        ensure!(t.trim_end_matches('\n').ends_with(s.trim_end_matches('\n')) && t.trim_start().starts_with(f.as_str()), "{:?} displays as\n{}\nbut is written as\n{}", v, s, t);
        let direct = match &one.pairs_ref()[0].1 { Value::Arr(a) => format!("{}", a), Value::Tup(a) => format!("{}", a), Value::Obj(a) => format!("{}", a), w => format!("{}", w) };
        ensure!(direct == s, "{:?} displays as\n{}\nbut as a Value as\n{}", v, direct, s);
    }
    if g.r.pct(10) {
        let p = scratch().join("w.over");
        let _ = std::fs::create_dir_all(scratch());
        let p = p.to_str().unwrap().to_string();
        if g.r.pct(50) { let _ = std::fs::write(&p, "junk: that is longer than what comes next ".repeat(50)); }
        x.write_to_file(&p).map_err(|e| format!("writing to a file: {}", e))?;
        let back = Obj::from_file(&p).map_err(|e| format!("reading the written file: {}\n{:.1500}", e, text))?;
        ensure!(back == x, "the written file reads back differently:\n{:.1500}", text);
        let _ = std::fs::remove_file(&p);
    }
    Ok(format!("levels {}", match olevels(&o) { 0..=3 => "1-3", 4..=10 => "4-10", 11..=60 => "11-60", _ => "61-64" }))
}
fn api_identity(r: &mut Rng, d: &Dict) -> Res {
    if r.pct(3) {
        let hs: Vec<_> = (0..4).map(|_| std::thread::spawn(|| (0..400).map(|i| match i % 3 { 0 => Arr::empty().id(), 1 => Tup::empty().id(), _ => Obj::empty().id() }).collect::<Vec<usize>>())).collect();
        let mut all: Vec<usize> = vec![];
        for h in hs { all.extend(h.join().map_err(|_| "thread panics".to_string())?) }
        let n = all.len(); all.sort(); all.dedup();
        ensure!(all.len() == n, "{} containers have {} ids", n, all.len());
        return Ok("threads".into());
    }
    let mut g = Vals::new(r, d);
    let v = g.any(3);
    let w = g.any(2);
    let mut b = Builder::default();
    let (x, y) = (b.value(&v), b.value(&w));
    let mut ids = Ids { sharing: true, ..Default::default() };
    for (s, t) in [(&v, &x), (&w, &y), (&v, &x.clone())] { same(s, t, &mut ids, "")? }
    macro_rules! handle { ($a:expr, $fresh:expr) => {{
        let a = $a; let c = a.clone(); let e = $fresh;
        ensure!(a.id() == c.id() && a.ptr_eq(&c) && c.ptr_eq(&a), "a clone is another instance: {} {}", a.id(), c.id());
        ensure!(a.id() != e.id() && !a.ptr_eq(&e) && !e.ptr_eq(&a), "an equal but separate container is the same instance: {} {}", a.id(), e.id());
        let n = a.num_references(); let c2 = a.clone(); ensure!(a.num_references() == n + 1 && c2.num_references() == n + 1, "num_references goes from {} to {}", n, a.num_references()); drop(c2); ensure!(a.num_references() == n, "num_references is {} after a drop, was {}", a.num_references(), n);
        a
    }} }
    for z in [&x, &y] {
        match z {
            Value::Arr(_) => { let a = handle!(z.get_arr().unwrap(), Arr::from_values_unchecked(z.get_arr().unwrap().values_ref().clone(), z.get_arr().unwrap().inner_type())); let t = Tup::from_values(vec![z.clone(), z.clone()]); ensure!(t.get(0).unwrap().get_arr().unwrap().id() == a.id() && t.get(1).unwrap().get_arr().unwrap().ptr_eq(&a), "stored in a tuple it is another instance") }
            Value::Tup(_) => { let a = handle!(z.get_tup().unwrap(), Tup::from_values(z.get_tup().unwrap().values_ref().clone())); let t = Arr::from_values(vec![z.clone(), z.clone()]).unwrap(); ensure!(t.get(0).unwrap().get_tup().unwrap().id() == a.id() && t.get(1).unwrap().get_tup().unwrap().ptr_eq(&a), "stored in an array it is another instance") }
            Value::Obj(_) => { let a = handle!(z.get_obj().unwrap(), Obj::from_pairs_unchecked(z.get_obj().unwrap().pairs_ref().clone(), z.get_obj().unwrap().get_parent())); let t = Obj::from_pairs_unchecked(vec![Pair("f".into(), z.clone())], Some(a.clone())); ensure!(t.get_obj("f").unwrap().id() == a.id() && t.get_parent().unwrap().id() == a.id() && t.get_parent().unwrap().ptr_eq(&a) && t.get("f").unwrap().get_obj().unwrap().ptr_eq(&a), "stored in an object it is another instance") }
            _ => (),
        }
    }
    Ok("handles".into())
}
