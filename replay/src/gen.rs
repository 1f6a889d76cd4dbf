//! Random inputs: documents, file trees, values.  Everything derives from one seed.
#![allow(clippy::all)]
use crate::oracle::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use std::rc::Rc;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn pct(&mut self, p: usize) -> bool { self.below(100) < p }
    pub fn pick<'a, X>(&mut self, xs: &'a [X]) -> &'a X { &xs[self.below(xs.len())] }
    pub fn weighted(&mut self, ws: &[usize]) -> usize { let t: usize = ws.iter().sum(); let mut k = self.below(t.max(1)); for (i, w) in ws.iter().enumerate() { if k < *w { return i } k -= w } 0 }
}

/// Constants that occur in the source under test: good candidates for special cases.
#[derive(Default, Clone)]
pub struct Dict { pub ints: Vec<u64>, pub chars: Vec<char>, pub strs: Vec<String> }
impl Dict {
    pub fn load(dir: &str) -> Dict {
        let mut d = Dict::default();
        fn walk(p: &std::path::Path, d: &mut Dict) {
            let Ok(rd) = std::fs::read_dir(p) else { return };
            let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            es.sort();
            for e in es {
                if e.is_dir() { walk(&e, d) } else if e.extension().map_or(false, |x| x == "rs") && e.file_name().map_or(true, |x| x != "tests.rs") { if let Ok(s) = std::fs::read_to_string(&e) { d.scan(&s) } }
            }
        }
        walk(std::path::Path::new(dir), &mut d);
        d.ints.sort(); d.ints.dedup(); d.chars.sort(); d.chars.dedup(); d.strs.sort(); d.strs.dedup();
        d
    }
    fn scan(&mut self, s: &str) {
        for line in s.lines() {
            let line = line.trim_start();
            if line.starts_with("//") { continue }
            let c: Vec<char> = line.chars().collect();
            let mut i = 0;
            while i < c.len() {
                if c[i].is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
                    let mut t = String::new();
                    while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { if c[i] != '_' { t.push(c[i]) } i += 1 }
                    let t = t.trim_end_matches(|x: char| "uisze".contains(x)).to_string();
                    let v = if let Some(h) = t.strip_prefix("0x") { u64::from_str_radix(h, 16).ok() } else { t.chars().take_while(|x| x.is_ascii_digit()).collect::<String>().parse().ok() };
                    if let Some(v) = v { self.ints.push(v) }
                } else if c[i] == '\'' && i + 2 < c.len() && c[i + 1] != '\\' && c[i + 2] == '\'' { self.chars.push(c[i + 1]); i += 3 }
                else if c[i] == '\'' && i + 4 < c.len() && c[i + 1] == '\\' && c[i + 2] == 'u' {
                    let h: String = c[i + 3..].iter().skip(1).take_while(|x| **x != '}').collect();
                    if let Some(ch) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) { self.chars.push(ch) }
                    i += 4 + h.len();
                }
                else if c[i] == '"' && (i == 0 || c[i - 1] != '\'') {
                    let mut t = String::new();
                    i += 1;
                    while i < c.len() && c[i] != '"' { if c[i] == '\\' { i += 1 } if i < c.len() { t.push(c[i]) } i += 1 }
                    i += 1;
                    if !t.is_empty() && t.len() <= 24 && !t.contains('{') { self.strs.push(t) }
                }
                else { i += 1 }
            }
        }
    }
}

pub const ODD: &[char] = &['\u{85}', '\u{a0}', '\u{2003}', '\u{3000}', '\u{2028}', '\u{200b}', '\u{feff}', '\u{1680}', '\u{0b}', '\u{0c}', '\r', '\t', '\0', '\u{7f}', 'é', 'ß', '中', 'ª', '٣', '²', 'Ⅷ', 'ⓐ', '\u{301}', '😀', '\u{10ffff}', '½', 'ǅ', '०'];
pub const BLANK: &[&str] = &[" ", "  ", "\n", "\t", "\r\n", "\n\n", "\u{a0}", "\u{2003}", "\u{3000}", "\u{85}", "\u{2028}", "\u{b}", "\u{c}", "# c\n", "#\n", "## \"x\" }])>\n", "# a: 1 '\\ é\n", " # x\n ", "#😀\n\n"];
pub const PUNCT: &str = "{}[]()<>\"'\\@^:.,_#+-*/%$=!?;&|~` \n\t0123456789aZ";

/// What a document is to be full of.
#[derive(Clone)]
pub struct Focus {
    /// null/bool, int, frac, str, arr, tup, obj, include
    pub kinds: [usize; 8],
    pub var: usize, pub dot: usize, pub ops: usize, pub unary: usize,
    pub globals: usize, pub parents: usize, pub wrong: usize, pub blanks: usize, pub mutate: usize, pub badnames: usize, pub depth: usize, pub fields: usize, pub long: usize,
}
impl Focus {
    pub fn new() -> Focus { Focus { kinds: [10, 20, 10, 15, 12, 10, 14, 0], var: 20, dot: 10, ops: 15, unary: 8, globals: 15, parents: 8, wrong: 4, blanks: 15, mutate: 15, badnames: 3, depth: 4, fields: 5, long: 3 } }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Sh { Null, Bool, Int, Frac, Str, Arr(Box<Sh>, usize), Tup(Vec<Sh>), Obj(Vec<(String, Sh)>) }

pub struct Gen<'a> { pub w: Rng, pub r: &'a mut Rng, pub d: &'a Dict, pub f: Focus, o: String, scope: Vec<(String, Sh)>, globals: Vec<(String, Sh)>, pub files: Vec<String>, budget: usize }
impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, d: &'a Dict, f: Focus) -> Gen<'a> { let w = Rng::new(r.next()); Gen { w, r, d, f, o: String::new(), scope: vec![], globals: vec![], files: vec![], budget: 60 } }
    pub fn doc(&mut self) -> String {
        self.o.clear(); self.scope.clear(); self.globals.clear();
        self.budget = self.r.range(3, 50);
        self.ws(0);
        let n = self.r.range(1, self.f.fields);
        self.fields(n, 0);
        let mut s = std::mem::take(&mut self.o);
        if self.r.pct(self.f.mutate) { s = mutate(self.r, self.d, &s) }
        s
    }
    /// Bare elements, as in an array or tuple file.
    pub fn seq_doc(&mut self, homogeneous: bool) -> String {
        self.o.clear(); self.scope.clear(); self.globals.clear();
        self.budget = self.r.range(3, 30);
        self.ws(0);
        let n = self.r.below(5);
        self.elems(n, homogeneous, 0);
        let mut s = std::mem::take(&mut self.o);
        if self.r.pct(self.f.mutate) { s = mutate(self.r, self.d, &s) }
        s
    }
    /// Blanks; at least one if `need`.
    fn ws(&mut self, need: usize) {
        let k = if self.w.pct(self.f.blanks) { self.w.range(1, 3) } else { 0 };
        for _ in 0..k { let b: &str = *self.w.pick(BLANK); self.o.push_str(b) }
        if k == 0 && need > 0 { self.o.push_str(if self.w.pct(30) { "\n" } else { " " }) }
    }
    pub fn name(&mut self) -> String { gen_name(self.r, self.d) }
    fn fields(&mut self, n: usize, depth: usize) -> Vec<(String, Sh)> {
        let outer = std::mem::take(&mut self.scope);
        let mut parent: Option<Vec<(String, Sh)>> = None;
        for i in 0..n {
            if i > 0 { self.ws(1) }
            // A run of plain definitions, so that something can depend on how many there are.
            if self.r.below(400) < self.f.long {
                let k = gen_len(self.r, self.d, 40);
                let glob = self.r.pct(20);
                let id = self.r.below(1000);
                for j in 0..k { let n = format!("{}z{}_{}", if glob { "@" } else { "" }, id, j); self.o.push_str(&n); self.o.push_str(": 7"); self.ws(1); if j < 30 { if glob { self.globals.push((n, Sh::Int)) } else { self.scope.push((n, Sh::Int)) } } }
                // One of the first ones again.
                if k > 0 && self.r.pct(15) { let pool = if glob { &self.globals } else { &self.scope }; let m = self.r.below(pool.len().min(5)); let n = pool[m].0.clone(); self.o.push_str(&n); self.o.push_str(": 8"); self.ws(1) }
            }
            if self.r.pct(self.f.parents) && (parent.is_none() || self.r.pct(10)) {
                self.o.push_str("^:");
                self.ws(1);
                let want = if self.r.pct(92) { Some(Sh::Obj(vec![])) } else { None };
                if let Sh::Obj(fs) = self.value(want, depth) { parent = Some(fs) }
                continue;
            }
            let glob = self.r.pct(self.f.globals);
            let mut name = if self.r.pct(self.f.badnames) { bad_name(self.r, self.d) } else { self.name() };
            let taken = |n: &str, me: &Self| me.scope.iter().any(|f| f.0 == n) || me.globals.iter().any(|f| f.0[1..] == *n);
            if taken(&name, self) && !self.r.pct(self.f.wrong * 3) { name.push_str(&format!("{}", self.r.below(1000))) }
            if glob { name.insert(0, '@') }
            self.o.push_str(&name);
            self.o.push(':');
            if self.r.pct(70) { self.ws(1) } else { self.ws(0) }
            let sh = self.value(None, depth);
            if glob { self.globals.push((name, sh)) } else { self.scope.push((name, sh)) }
        }
        let mut mine = std::mem::replace(&mut self.scope, outer);
        if let Some(p) = parent { mine.extend(p) }
        mine
    }
    fn elems(&mut self, n: usize, homogeneous: bool, depth: usize) -> Vec<Sh> {
        let mut shs: Vec<Sh> = vec![];
        for i in 0..n {
            if i > 0 { self.ws(1) }
            let want = if homogeneous && i > 0 && !self.r.pct(self.f.wrong) { Some(shs[0].clone()) } else { None };
            let sh = self.value(want, depth);
            shs.push(sh);
        }
        shs
    }
    fn like(a: &Sh, b: &Sh) -> bool { std::mem::discriminant(a) == std::mem::discriminant(b) }
    /// A value with the operators after it.
    fn value(&mut self, want: Option<Sh>, depth: usize) -> Sh {
        let mut sh = self.operand(want.clone(), depth);
        if self.r.pct(self.f.ops) || (self.f.ops > 0 && matches!(sh, Sh::Int | Sh::Frac) && self.r.pct(self.f.ops * 2)) {
            let k = if self.r.pct(5) { self.r.range(5, 20) } else { self.r.range(1, 4) };
            for _ in 0..k {
                if !matches!(sh, Sh::Int | Sh::Frac | Sh::Str | Sh::Arr(..)) && !self.r.pct(10) { break }
                let off = self.r.pct(1 + self.f.wrong);
                let op = match sh { Sh::Int => *self.r.pick(&['+', '-', '*', '/', '%', '*', '+', '-']), Sh::Frac => *self.r.pick(&['+', '-', '*', '/', '+', '-', '*', if off { '%' } else { '*' }]), _ => if !off { '+' } else { *self.r.pick(&['-', '*', '/', '%']) } };
                let next = match &sh {
                    Sh::Int => if op == '%' && !off || self.r.pct(70) || want == Some(Sh::Int) { Sh::Int } else { Sh::Frac }, Sh::Frac => if self.r.pct(60) { Sh::Frac } else { Sh::Int },
                    s => if !off { s.clone() } else { Sh::Int } };
                if want == Some(Sh::Int) && (op == '/') { continue }
                self.o.push(op);
                if self.r.pct(1) { self.o.push(' ') }
                let b = self.operand(Some(next), depth);
                sh = match (&sh, &b) { (Sh::Frac, _) | (_, Sh::Frac) => Sh::Frac, (Sh::Int, Sh::Int) => if op == '/' { Sh::Frac } else { Sh::Int },
                    (Sh::Arr(a, n), Sh::Arr(_, m)) => Sh::Arr(a.clone(), n + m), _ => sh.clone() };
            }
        }
        sh
    }
    fn paths(out: &mut Vec<(String, Sh)>, pre: &str, sh: &Sh, depth: usize) {
        out.push((pre.to_string(), sh.clone()));
        if depth == 0 { return }
        match sh {
            Sh::Obj(fs) => for (n, s) in fs { Self::paths(out, &format!("{}.{}", pre, n), s, depth - 1) },
            Sh::Arr(s, n) => if *n > 0 { out.push((format!("{}.0", pre), (**s).clone())); out.push((format!("{}.{}", pre, n - 1), (**s).clone())) },
            Sh::Tup(ss) => for (i, s) in ss.iter().enumerate() { out.push((format!("{}.{}", pre, i), s.clone())) },
            _ => (),
        }
    }
    fn operand(&mut self, want: Option<Sh>, depth: usize) -> Sh {
        self.budget = self.budget.saturating_sub(1);
        if self.r.pct(self.f.unary) && want.as_ref().map_or(true, |w| matches!(w, Sh::Int | Sh::Frac) || self.f.wrong > 0 && self.r.0 % 50 == 0) {
            for _ in 0..self.r.range(1, 2) { let c = *self.r.pick(&['-', '+']); self.o.push(c) }
            let w = want.unwrap_or_else(|| if self.r.pct(50) { Sh::Int } else { Sh::Frac });
            return self.operand_noun(Some(w), depth);
        }
        self.operand_noun(want, depth)
    }
    fn operand_noun(&mut self, want: Option<Sh>, depth: usize) -> Sh {
        if (!self.scope.is_empty() || !self.globals.is_empty()) && self.r.pct(self.f.var) {
            let mut ps = vec![];
            let deep = if self.r.pct(self.f.dot * 3) { 3 } else { 0 };
            for (n, s) in self.scope.iter().chain(&self.globals) { Self::paths(&mut ps, n, s, deep) }
            let fit: Vec<_> = ps.iter().filter(|p| want.as_ref().map_or(true, |w| Self::like(w, &p.1))).cloned().collect();
            if !fit.is_empty() {
                let (mut n, s) = self.r.pick(&fit).clone();
                // An index may be a name.
                let ints: Vec<String> = self.scope.iter().filter(|x| x.1 == Sh::Int).map(|x| x.0.clone()).collect();
                if let Some(k) = n.rfind('.') { if n[k + 1..].starts_with(|c: char| c.is_ascii_digit()) && !ints.is_empty() && self.r.pct(25) { n = format!("{}.{}", &n[..k], self.r.pick(&ints)) } }
                if self.r.pct(self.f.wrong) { let m = *self.r.pick(&[".0", ".1", ".a", ".@g", ".-1", ".1.5", ".99999999999999999999999", ".", ".null", "_", "x", ".^", ".\"a\"", ".true", ".false", ".null", ".true", ".Obj", ".Str", ".Arr", ".Tup", ".2_0", ".,", ".[0]"]); n.push_str(m) }
                self.o.push_str(&n);
                return s;
            }
        }
        if self.r.pct(self.f.wrong) && self.r.pct(10) {
            // An include keyword that is only the last part of a dotted name.
            if let Some(t) = self.dotted_keyword() { self.o.push_str(&format!("<{} \"x\">", t)); return want.unwrap_or(Sh::Int) }
        }
        if self.r.pct(self.f.wrong) {
            let w = *self.r.pick(&["nope", "@nope", "@", "nul", "True", "Obj", "Arr", "Str", "Tup", "^", "$", "1__0", "1.2.3", "_", ".", "\"\\q\"", "<>", "<1>", "< \"x\" >", "<Str", "<Obj \"no.over\">", "+", "-", "]", ")", "}", ">", "1/0", "1%0", "1.0/0", "'a'", "_1", "1a", "a1", "@a.b", "null.x", "true.0", "1._0", "\"a\".0", "--1", "-\"x\"", "+[]", "1+\"x\"", "nullx", "\"open"]);
            self.o.push_str(w);
            return want.unwrap_or(Sh::Int);
        }
        let small = depth >= self.f.depth || self.budget == 0;
        let k = match want { None => {
            let mut ws = self.f.kinds; if small { ws[4] = 0; ws[5] = 0; ws[6] = 0 } if self.files.is_empty() { ws[7] = 0 }
            self.r.weighted(&ws) }
            Some(ref w) => match w { Sh::Null | Sh::Bool => 0, Sh::Int => 1, Sh::Frac => 2, Sh::Str => 3, Sh::Arr(..) => 4, Sh::Tup(_) => 5, Sh::Obj(_) => 6 } };
        match k {
            0 => match want { Some(Sh::Null) => { self.o.push_str("null"); Sh::Null } Some(_) => { let t = *self.r.pick(&["true", "false"]); self.o.push_str(t); Sh::Bool }
                None => if self.r.pct(40) { self.o.push_str("null"); Sh::Null } else { let t = *self.r.pick(&["true", "false"]); self.o.push_str(t); Sh::Bool } },
            1 => { let t = self.int_lit(); self.o.push_str(&t); Sh::Int }
            2 => { let t = self.frac_lit(); self.o.push_str(&t); Sh::Frac }
            3 => { let t = self.str_lit(); self.o.push_str(&t); Sh::Str }
            4 => {
                self.o.push('[');
                self.ws(0);
                let n = if small { self.r.below(2) } else if self.r.pct(self.f.long) { self.r.range(10, 60) } else { self.r.below(5) };
                let n = if let (true, Some(Sh::Arr(_, _))) = (small, &want) { 0.max(n.min(1)) } else { n };
                let mut shs: Vec<Sh> = vec![];
                for i in 0..n {
                    if i > 0 { self.ws(1) }
                    let w = if i > 0 && !self.r.pct(self.f.wrong) { Some(shs[0].clone()) } else if let (0, Some(Sh::Arr(e, m))) = (i, &want) { if *m > 0 { Some((**e).clone()) } else { None } } else { None };
                    let sh = self.value(w, depth + 1);
                    shs.push(sh);
                }
                self.ws(0);
                let c = self.close(']'); self.o.push(c);
                Sh::Arr(Box::new(shs.get(0).cloned().unwrap_or(Sh::Null)), n)
            }
            5 => {
                self.o.push('(');
                self.ws(0);
                let shs = if let Some(Sh::Tup(ts)) = want {
                    let mut r = vec![];
                    for (i, t) in ts.into_iter().enumerate() { if i > 0 { self.ws(1) } let s = self.value(Some(t), depth + 1); r.push(s) }
                    r
                } else { let n = if small { self.r.below(2) } else if self.r.below(400) < self.f.long { gen_len(self.r, self.d, 40) } else { self.r.below(4) }; self.elems(n, false, depth + 1) };
                self.ws(0);
                let c = self.close(')'); self.o.push(c);
                Sh::Tup(shs)
            }
            6 => {
                self.o.push('{');
                self.ws(0);
                let n = if small { 0 } else { self.r.below(4) };
                let fs = self.fields(n, depth + 1);
                if n > 0 { if self.r.pct(50) { self.ws(1) } else { self.ws(0) } }
                let c = self.close('}'); self.o.push(c);
                Sh::Obj(fs)
            }
            _ => {
                self.o.push('<');
                self.ws(0);
                let t = self.r.below(5);
                if t > 0 {
                    let odd = if self.f.wrong > 0 && self.r.pct(3) { self.dotted_keyword() } else { None };
                    self.o.push_str(&odd.unwrap_or_else(|| ["", "Obj", "Str", "Arr", "Tup"][t].to_string()));
                    self.ws(1)
                }
                let f = self.r.pick(&self.files.clone()).clone();
                if f.len() > 1 && self.r.pct(4) && f.is_char_boundary(1) { let (a, b) = f.split_at(1); self.o.push_str(&format!("\"{}\"+\"{}\"", a, b)) } else { self.o.push_str(&format!("\"{}\"", f)) }
                self.ws(0);
                let c = self.close('>'); self.o.push(c);
                [Sh::Obj(vec![]), Sh::Obj(vec![]), Sh::Str, Sh::Arr(Box::new(Sh::Int), 1), Sh::Tup(vec![])][t].clone()
            }
        }
    }
    fn dotted_keyword(&mut self) -> Option<String> {
        let os: Vec<String> = self.scope.iter().filter(|x| matches!(x.1, Sh::Obj(_))).map(|x| x.0.clone()).collect();
        if os.is_empty() { return None }
        Some(format!("{}.{}", self.r.pick(&os), self.r.pick(&["Obj", "Str", "Arr", "Tup"])))
    }
    fn close(&mut self, c: char) -> char { if self.f.wrong > 0 && self.r.below(400) < self.f.wrong { *self.r.pick(&['}', ']', ')', '>']) } else { c } }
    pub fn int_lit(&mut self) -> String {
        let n = gen_int(self.r, self.d);
        let mut s = n.to_string().trim_start_matches('-').to_string();
        if self.r.pct(10) { s = format!("{}{}", "0".repeat(self.r.range(1, 3)), s) }
        if self.r.pct(15) { under(self.r, &mut s) }
        s
    }
    pub fn frac_lit(&mut self) -> String {
        let a = if self.r.pct(15) { String::new() } else { self.int_lit() };
        let mut b = if self.r.pct(10) && !a.is_empty() { String::new() } else {
            let k = if self.r.pct(5) { self.r.range(10, 60) } else { self.r.range(1, 5) }; let mut t: String = (0..k).map(|_| (b'0' + if self.r.pct(30) { 0 } else { self.r.below(10) } as u8) as char).collect(); if self.r.pct(20) { t.push_str("000") } t };
        if self.r.pct(8) { under(self.r, &mut b) }
        format!("{}{}{}", a, if self.r.pct(80) { '.' } else { ',' }, b)
    }
    pub fn str_lit(&mut self) -> String {
        let s = gen_str(self.r, self.d);
        let mut t = String::from("\"");
        for c in s.chars() { lit_char(self.r, &mut t, c) }
        t.push('"');
        t
    }
}
/// One character of a string literal, escaped one way or the other.
pub fn lit_char(r: &mut Rng, t: &mut String, c: char) {
    match c {
        '"' | '\\' => { t.push('\\'); t.push(c) }
        '\'' | '$' => { if r.pct(50) { t.push('\\') } t.push(c) }
        '\n' | '\r' | '\t' => if r.pct(50) { t.push('\\'); t.push(match c { '\n' => 'n', '\r' => 'r', _ => 't' }) } else { t.push(c) },
        _ => t.push(c),
    }
}
fn under(r: &mut Rng, s: &mut String) {
    for _ in 0..r.range(1, 3) {
        let k = r.below(s.len() + 1);
        let beside = |i: usize| s.as_bytes().get(i) == Some(&b'_');
        if (k == 0 || beside(k) || beside(k - 1)) && !r.pct(6) { continue }
        s.insert(k, '_');
    }
}
pub fn gen_char(r: &mut Rng, d: &Dict) -> char {
    match r.below(10) {
        0..=3 => (b'a' + r.below(26) as u8) as char,
        4 => *r.pick(&['"', '\\', '\'', '$', '\n', '\r', '\t', '#', ' ', 'n', 'r', 't', 'u', '0', '{', '}', ':']),
        5 => (32 + r.below(95) as u8) as char,
        6 => *r.pick(ODD),
        7 => if d.chars.is_empty() { 'q' } else { *r.pick(&d.chars) },
        8 => char::from_u32(r.below(0x3000) as u32).unwrap_or('x'),
        _ => char::from_u32(r.below(0x110000) as u32).unwrap_or('y'),
    }
}
pub fn gen_len(r: &mut Rng, d: &Dict, small: usize) -> usize {
    match r.below(30) { 0 => r.range(0, 70), 1 => r.range(0, 300), 2 if !d.ints.is_empty() => { let k = *r.pick(&d.ints) as usize; if k < 1500 { (k + r.below(3)).saturating_sub(1) } else { 3 } } _ => r.below(small + 1) }
}
pub fn gen_str(r: &mut Rng, d: &Dict) -> String {
    if r.pct(6) && !d.strs.is_empty() { return r.pick(&d.strs).clone() }
    let n = gen_len(r, d, 8);
    let hard = r.pct(50);
    (0..n).map(|_| if hard { gen_char(r, d) } else { (b'a' + r.below(26) as u8) as char }).collect()
}
pub fn gen_int(r: &mut Rng, d: &Dict) -> BigInt {
    let one = BigInt::from(1);
    let mut v = match r.below(12) {
        0..=4 => BigInt::from(r.below(12)),
        5 => BigInt::from(r.below(1000)),
        6 => { let k = *r.pick(&[7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128]); (one.clone() << k) + BigInt::from(r.below(3)) - one }
        7 => { let n = r.range(1, 60); (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect::<String>().parse().unwrap() }
        8 if !d.ints.is_empty() => BigInt::from(*r.pick(&d.ints)) + BigInt::from(r.below(3)) - one,
        9 => { let k = r.range(1, 30); (0..k).fold(one, |a, _| a * BigInt::from(10)) - BigInt::from(r.below(2)) }
        _ => BigInt::from(r.next() >> r.below(64)),
    };
    if r.pct(40) { v = -v }
    v
}
pub fn gen_frac(r: &mut Rng, d: &Dict) -> BigRational {
    let n = gen_int(r, d);
    let mut k = gen_int(r, d);
    if k == BigInt::from(0) { k = BigInt::from(1) }
    if r.pct(15) { k = BigInt::from(1) }
    BigRational::new(n, k)
}
const ALPHA: &[char] = &['é', 'ß', '中', 'ª', 'ǅ', 'Ⅷ', 'ж', 'ñ', 'İ', '\u{0345}'];
pub fn gen_name(r: &mut Rng, d: &Dict) -> String {
    match r.below(14) {
        0..=6 => ((b'a' + r.below(8) as u8) as char).to_string(),
        7 => (*r.pick(&["_", "__", "_1", "nullx", "Objs", "tru", "truee", "Nul", "obj", "strs", "arr", "tup", "a_b", "x9", "null_", "Null", "_null", "Tup1"])).to_string(),
        8 => { let s = r.pick(&d.strs.iter().filter(|s| valid_name(s) && !reserved(s)).cloned().chain(std::iter::once("q".to_string())).collect::<Vec<_>>()).clone(); s }
        9 => format!("{}{}", r.pick(ALPHA), if r.pct(50) { "1" } else { "" }),
        _ => { let n = if r.pct(3) { gen_len(r, d, 6).max(1) } else { r.range(1, 4) }; (0..n).map(|i| if i > 0 && r.pct(25) { (b'0' + r.below(10) as u8) as char } else if r.pct(10) { '_' } else if r.pct(20) { (b'A' + r.below(26) as u8) as char } else { (b'a' + r.below(26) as u8) as char }).collect::<String>() }
    }.chars().enumerate().map(|(i, c)| if name_char(c, i == 0) { c } else { 'k' }).collect::<String>().replace("null", "nul").into_ok_name()
}
trait OkName { fn into_ok_name(self) -> String; }
impl OkName for String { fn into_ok_name(self) -> String { if reserved(&self) || self.is_empty() { format!("{}_", self) } else { self } } }
pub fn bad_name(r: &mut Rng, d: &Dict) -> String {
    if r.pct(40) { return (*r.pick(&["null", "true", "false", "Obj", "Str", "Arr", "Tup", "@", "^", "^a", "", "1a", "a b", "a-b", "9", "a.b", "^^", "@@", "a@", "a^", "@1", "é", "a\u{301}", "٣", "a٣", "²", "a²", "@^", "@^a", "@null", "@true", "@Obj", "\"a\"", "a\n", "$", "a$"])).to_string() }
    let mut s: Vec<char> = gen_name(r, d).chars().collect();
    let k = r.below(s.len() + 1);
    let c = if r.pct(40) { *r.pick(&PUNCT.chars().collect::<Vec<_>>()) } else { gen_char(r, d) };
    s.insert(k, c);
    s.into_iter().collect()
}
pub fn mutate(r: &mut Rng, d: &Dict, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 3) {
        let n = c.len();
        match r.below(9) {
            0 if n > 0 => { let k = r.below(n); c.remove(k); }
            1 if n > 0 => { let k = r.below(n); let x = c[k]; c.insert(k, x) }
            2 | 3 => { let k = r.below(n + 1); let x = *r.pick(&PUNCT.chars().collect::<Vec<_>>()); c.insert(k, x) }
            4 => { let k = r.below(n + 1); let x = gen_char(r, d); c.insert(k, x) }
            5 if n > 0 => { let k = r.below(n); c[k] = *r.pick(&PUNCT.chars().collect::<Vec<_>>()) }
            6 if n > 1 => { let k = r.below(n - 1); c.swap(k, k + 1) }
            7 if n > 0 => { let k = r.below(n); c.truncate(k) }
            8 if n > 2 => { let a = r.below(n); let b = (a + r.below(6)).min(n); let part: Vec<char> = c[a..b].to_vec(); let k = r.below(n); for (i, x) in part.into_iter().enumerate() { c.insert(k + i, x) } }
            _ => (),
        }
    }
    c.into_iter().collect()
}

// ------------------------------------------------------------------ big inputs
/// A size up to `cap`: small, near a power of two, near a constant of the source, or anything between.
pub fn big_len(r: &mut Rng, d: &Dict, cap: usize) -> usize {
    let cap = if cap > 9000 && r.pct(85) { 9000 } else { cap };
    let n = match r.below(8) {
        0 => r.range(0, 40),
        1..=3 => { let ks: Vec<usize> = d.ints.iter().map(|k| *k as usize).filter(|k| *k > 8 && *k < cap).collect(); if ks.is_empty() { 64 } else { *r.pick(&ks) + r.below(4) } }
        4 | 5 => (1usize << r.range(4, 17)) + r.below(4),
        _ => { let k = r.range(3, 17); r.range(1 << k, 2 << k) }
    };
    n.saturating_sub(1).min(cap)
}
fn run_of(r: &mut Rng, n: usize, pool: &[&str]) -> String {
    // One piece over and over, or mixed.
    if r.pct(50) { let x = *r.pick(pool); return x.repeat(n) }
    let mut s = String::new();
    for _ in 0..n { s.push_str(*r.pick(pool)) }
    s
}
fn digits(r: &mut Rng, n: usize) -> String { let plain = r.pct(20); (0..n).map(|_| (b'0' + if plain { 9 } else { r.below(10) } as u8) as char).collect() }
/// A small value of one kind.
fn small_val(r: &mut Rng) -> &'static str { *r.pick(&["1", "2.5", "\"s\"", "null", "true", "[]", "[1]", "()", "(1 \"a\")", "{}", "{a: 1}", "[[]]", "[[1]]", "[(1 [])]"]) }
pub const BIGS: usize = 18;
pub fn kinds_of(prop: &str) -> &'static [usize] {
    match prop {
        "C02" => &[6, 6, 11, 11, 12], "C06" => &[5], "C07" => &[2], "C08" => &[0, 1], "C09" => &[7, 7, 7, 12], "C10" => &[5, 8, 8, 15], "C11" => &[10, 10, 13, 16], "C13" => &[3, 4, 9, 3, 4, 9, 17],
        "C15" => &[3, 4, 9, 2, 14], "C17" => &[8, 6, 16, 12], "C18" => &[14, 3, 4, 9, 6, 10],
        _ => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17],
    }
}
/// A document of which one thing is big, so that something can depend on how big it is.
pub fn big_doc(kind: usize, r: &mut Rng, d: &Dict) -> String {
    let end = |r: &mut Rng, s: &mut String| {
        let e: &str = *r.pick(&["", "", "", "\n", "\nz: 1", "\nz: 1 z: 2", "\nz: nope", "\nz: 1x", " }", "]", "\nz:", "\nz: [1", "\nz: \"", "\nz: 1/0", "\nz 1"]);
        s.push_str(e);
    };
    let mut s = String::new();
    match kind {
        0 => { let n = big_len(r, d, 4000); s = format!("a: {}{}", if r.pct(20) { "-" } else { "" }, digits(r, n)); if r.pct(30) { let k = r.range(3, s.len().max(4)).min(s.len()); s.insert_str(k, *r.pick(&["_", "__", ".", ",", "x"])) } }
        1 => { let (n, m) = (big_len(r, d, 3000), big_len(r, d, 3000)); let (n, m) = match r.below(3) { 0 => (n, 1), 1 => (1, m), _ => (n, m) }; s = format!("a: {}.{}", digits(r, n), digits(r, m)) }
        2 => {
            let n = big_len(r, d, 100_000);
            s.push_str("a: \"");
            let t = run_of(r, n, &["a", "b", " ", "\\n", "\n", "\\\"", "\\\\", "é", "#", "😀", "\\$", "x: 1 "]);
            s.push_str(&t);
            s.push_str(*r.pick(&["", "z", "\\t", "\\q", "\\\"", "\u{2028}", "中"]));
            if r.pct(95) { s.push('"') }
        }
        3 => {
            // A long comment.
            let n = big_len(r, d, 100_000);
            let t = run_of(r, n, &["c", " ", "x: 1 ", "\"", "#", "}", "é"]);
            let c = format!("#{}\n", t);
            s = match r.below(6) { 0 => format!("{}a: 1", c), 1 => format!("a: {}1", c), 2 => format!("a: [1 {} 2]", c), 3 => format!("a: 1 {}b: 2", c), 4 => format!("a: {{{}b: 1 {}}}", c, c), _ => format!("a: 1 {}", c) };
        }
        4 => {
            let n = big_len(r, d, 100_000);
            let c = run_of(r, n, &[" ", "\t", "\u{a0}", "\u{3000}", "\r"]);
            s = match r.below(6) { 0 => format!("{} a: 1", c), 1 => format!("a: {}1", c), 2 => format!("a: [1 {}2]", c), 3 => format!("a: 1 {}b: 2", c), 4 => format!("a: {{{}b: 1 {}}}", c, c), _ => format!("a: ({}) {}", c, c) };
        }
        5 => {
            // Long names that begin alike.
            let n = big_len(r, d, 3000).max(1);
            let base: String = { let k = r.below(3); (0..n).map(|i| match k { 0 => 'a', 1 => (b'a' + (i % 26) as u8) as char, _ => *r.pick(&['a', '_', 'é', 'Z']) }).collect() };
            let g = if r.pct(30) { "@" } else { "" };
            let (x, y) = (format!("{}{}x", g, base), format!("{}{}y", g, base));
            let short = format!("{}{}", g, base);
            let bad = format!("{}{}{}", base, *r.pick(&["-", " ", "^", "@", "$", ".", "٣"]), if r.pct(50) { "b" } else { "" });
            s = match r.below(6) { 0 => format!("{}: 1 {}: 2 {}: 3 v: [{} {} {}]", x, y, short, x, y, short), 1 => format!("{}: 1 v: {}", x, y), 2 => format!("{}: 1 {}: 2", x, x), 3 => format!("{}: 1 v: {}", x, short), 4 => format!("{}: 1", bad), _ => format!("o: {{{}: 1 {}: 2}} v: o.{} w: o.{}", base, format!("{}y", base), base, format!("{}{}", base, *r.pick(&["y", "z"]))) };
        }
        6 => {
            // A long array, its late elements of a type of their own.
            let n = big_len(r, d, 4000);
            let a = small_val(r);
            let b = if r.pct(50) { small_val(r) } else { a };
            let c = if r.pct(40) { small_val(r) } else { a };
            let inner = format!("{} {}{} {}", a, format!("{} ", b).repeat(n), c, if r.pct(30) { b } else { "" });
            s = format!("a: {}{}{}", "[", inner, "]");
            if r.pct(30) { s.push_str(&format!(" b: a.{} c: a.{}", n, n + 3)) }
        }
        7 => {
            let n = big_len(r, d, 1500);
            let hi = *r.pick(&[0, 20, 50, 80]);
            let div = r.below(4);
            s.push_str("a: ");
            for i in 0..n + 1 {
                if i > 0 { s.push(if r.pct(hi) { if div == 0 && r.pct(10) { '/' } else { *r.pick(&['*', '%']) } } else { *r.pick(&['+', '-']) }) }
                s.push_str(&format!("{}", r.range(1, 9)));
                if div == 1 && r.below(300) == 0 { s.push_str(".5") }
            }
            if r.pct(60) { s.push_str(&format!("{}{}{}{}", *r.pick(&["+", "-", "*"]), r.range(2, 9), *r.pick(&["*", "%", "-", "+"]), r.range(2, 9))) }
        }
        8 => {
            // Many fields or globals, and something about one of them.
            let n = big_len(r, d, 1500).max(1);
            let g = if r.pct(40) { "@" } else { "" };
            let heavy = r.pct(30);
            for i in 0..n { if heavy { s.push_str(&format!("{}f{}: [{}]\n", g, i, i)) } else { s.push_str(&format!("{}f{}: {}\n", g, i, i)) } }
            let k = *r.pick(&[0, 1, n - 1, n / 2, n]);
            let k2 = r.below(n);
            match r.below(5) { 0 => s.push_str(&format!("v: {}f{}", g, k)), 1 => s.push_str(&format!("{}f{}: 0", g, k)), 2 => { s = format!("o: {{{}}} v: o.f{}", s, k) } 3 => s.push_str(&format!("v: [{}f{} {}f{}] w: {}f{}", g, k, g, k2, g, k)), _ => s.push_str(&format!("o: {{x: {}f{} f{}: 2}} w: o.x", g, k2, k)) }
        }
        9 => {
            let n = big_len(r, d, 70_000);
            let t = run_of(r, n, &["\n", "\r\n", " \n", "#\n"]);
            s = match r.below(5) { 0 => format!("{}a: 1", t), 1 => format!("a: {}1", t), 2 => format!("a: [1{}2]", t), 3 => format!("a: {{{}b: 1{}}}", t, t), _ => format!("a: \"{}\" b: 1", t.replace('#', "")) };
            if r.pct(30) { s.push_str("x") }
        }
        10 => {
            // A long tuple or array read at one place.
            let n = big_len(r, d, 3000).max(1);
            let same = r.pct(50);
            let t: String = (0..n).map(|i| if same || i % 7 > 0 { format!("{} ", i) } else { format!("\"{}\" ", i) }).collect();
            let k = *r.pick(&[0, n - 1, n / 2, n, n + 1]);
            let k = if r.pct(30) { r.below(n) } else { k };
            let (b, c) = if same && r.pct(50) { ('[', ']') } else { ('(', ')') };
            s = match r.below(3) { 0 => format!("t: {}{}{} i: {} v: t.i", b, t, c, k), _ => format!("t: {}{}{} v: t.{}", b, t, c, k) };
        }
        11 => {
            // Long tuples that differ late, or not.
            let n = big_len(r, d, 600).max(1);
            let a: Vec<&str> = if r.pct(50) { let x = small_val(r); vec![x; n] } else { (0..n).map(|_| small_val(r)).collect() };
            let mut b = a.clone();
            for _ in 0..r.range(1, 2) { let k = if r.pct(50) { n - 1 } else { r.below(n) }; b[k] = small_val(r) }
            if r.pct(10) { b.pop(); }
            let op = if r.pct(30) { "] + [".replace(' ', "") } else { " ".into() };
            s = format!("a: [({}){}({})]", a.join(" "), op, b.join(" "));
        }
        12 => {
            let (n, m) = (big_len(r, d, 2000), big_len(r, d, 2000));
            let (x, y) = (small_val(r), if r.pct(30) { small_val(r) } else { "" });
            if r.pct(50) { s = format!("a: [{}]+[{} {}]", "1 ".repeat(n), "2 ".repeat(m), if r.pct(50) { "3" } else { "" }) }
            else if r.pct(50) { s = format!("a: \"{}\"+\"{}x\"", "a".repeat(n), "é".repeat(m)) }
            else { s = format!("x: {} a: [{}]+[{} {}] b: a+[x]", x, "x ".repeat(n.min(500)), "x ".repeat(m.min(500)), y) }
        }
        13 => {
            // A long chain of parents.
            let n = big_len(r, d, 400).max(1);
            s.push_str("@p0: {first: 1 x: 0}\n");
            for i in 1..n { if i % 5 == 0 { s.push_str(&format!("@p{}: {{^: @p{} x{}: {}}}\n", i, i - 1, i, i)) } else { s.push_str(&format!("@p{}: {{^: @p{}}}\n", i, i - 1)) } }
            s.push_str(&format!("v: @p{}.first w: @p{}.x u: @p{}.{}", n - 1, n - 1, n - 1, *r.pick(&["x5", "x10", "none", "first"])));
        }
        14 => {
            // An error, or a delimiter, a long way from the start.
            let n = big_len(r, d, 20_000);
            let t = run_of(r, n.min(3000), &["1 ", "1\n", "22 ", "1\n\n"]);
            let nl = "\n".repeat(n);
            let e = *r.pick(&["]", ")", "}", ">", "x]", "1]", "1x]", "\"a\"b]", "", "[]", "[1)]", "1+]", "]]", "] b: 1}", "] b: 1", "] b: 1;"]);
            s = match r.below(3) { 0 => format!("a: [{}{}{}", nl, t.chars().take(40).collect::<String>(), e), 1 => format!("{}a: [{}", nl, e), _ => format!("a: [{}{}", t, e) };
        }
        15 => {
            // A name seen through many scopes.
            let n = r.range(1, 58);
            s = format!("@g: 1 x: 2 {}y: {}{} z: x", "o: { ".repeat(n), *r.pick(&["@g", "x", "y", "@h"]), " }".repeat(n));
        }
        16 => {
            let n = big_len(r, d, 1500).max(1);
            s = format!("a: [1] t: ({}) o: {{k: a}} v: t.{} w: t.{} u: o.k", "a ".repeat(n), n - 1, r.below(n));
        }
        _ => {
            // Many blanks and comments between everything.
            let n = big_len(r, d, 400);
            let b = |r: &mut Rng| { let k = r.below(n + 1); run_of(r, k, &[" ", "\n", "# c\n", "\t", "#\n"]) + " " };
            let w: Vec<String> = (0..6).map(|_| b(r)).collect();
            s = format!("{}a:{}[{}1{}2{}]\n{}b: 2", w[0], w[1], w[2], w[3], w[4], w[5]);
        }
    }
    if kind < BIGS { end(r, &mut s) }
    s
}

// ------------------------------------------------------------------ values built through the API
pub struct Vals<'a> { pub r: &'a mut Rng, pub d: &'a Dict, pub pool: Vec<V>, pub writable: bool }
impl<'a> Vals<'a> {
    pub fn new(r: &'a mut Rng, d: &'a Dict) -> Self { Vals { r, d, pool: vec![], writable: true } }
    pub fn any(&mut self, depth: usize) -> V {
        if !self.pool.is_empty() && self.r.pct(10) { return self.r.pick(&self.pool).clone() }
        let k = if depth == 0 { self.r.below(6) } else { self.r.below(11) };
        let v = match k {
            0 => V::Null, 1 => V::Bool(self.r.pct(50)), 2 | 3 => V::Int(gen_int(self.r, self.d)), 4 => V::Frac(gen_frac(self.r, self.d)), 5 => V::Str(gen_str(self.r, self.d)),
            6 | 7 => self.arr(depth), 8 => self.tup(depth), _ => V::Obj(self.obj(depth)),
        };
        if !matches!(v, V::Null | V::Bool(_) | V::Int(_) | V::Frac(_) | V::Str(_)) && self.pool.len() < 8 { self.pool.push(v.clone()) }
        v
    }
    /// The same value, the types of its arrays less specific here and there.
    pub fn loosen(&mut self, v: &V) -> V {
        fn less(r: &mut Rng, t: &T) -> T { if r.pct(20) { return T::Any } match t { T::Arr(x) => tarr(less(r, x)), T::Tup(xs) => T::Tup(xs.iter().map(|x| less(r, x)).collect()), t => t.clone() } }
        match v {
            V::Arr(a) => { let vs = a.0.iter().map(|x| self.loosen(x)).collect(); let t = less(self.r, &a.1); mk_arr(vs, t) }
            V::Tup(t) => { let vs = t.0.iter().map(|x| self.loosen(x)).collect(); mk_tup(vs) }
            V::Obj(o) => { let ps = o.pairs.iter().map(|(n, x)| (n.clone(), self.loosen(x))).collect(); mk_obj(ps, o.parent.as_ref().map(|p| match self.loosen(&V::Obj(p.clone())) { V::Obj(q) => q, _ => p.clone() })) }
            v => v.clone(),
        }
    }
    /// Two values of which something is big, alike or different at a late place.
    pub fn big_two(&mut self) -> (V, V) {
        let alike = self.r.pct(25);
        match self.r.below(6) {
            0 => {
                let n = big_len(self.r, self.d, 5000).max(1);
                let mut c: Vec<char> = (0..n).map(|_| 'a').collect();
                if self.r.pct(50) { for _ in 0..5 { let k = self.r.below(n); c[k] = gen_char(self.r, self.d) } }
                let a: String = c.iter().collect();
                if !alike { let k = if self.r.pct(50) { n - 1 } else { self.r.below(n) }; c[k] = if self.r.pct(50) { 'b' } else { gen_char(self.r, self.d) } }
                (V::Str(a), V::Str(c.iter().collect()))
            }
            1 => {
                let n = big_len(self.r, self.d, 2000).max(1);
                let a: BigInt = digits(self.r, n).parse().unwrap();
                let b = if alike { a.clone() } else { &a + BigInt::from(1) };
                if self.r.pct(50) { (V::Int(a), V::Int(b)) } else { let m: BigInt = { let k = self.r.range(1, 60); (0..k).fold(BigInt::from(1), |a, _| a * BigInt::from(10)) }; (V::Frac(BigRational::new(a, m.clone())), V::Frac(BigRational::new(b, m))) }
            }
            2 | 3 => {
                let n = big_len(self.r, self.d, 1500).max(1);
                let x = self.any(1);
                let mut y = self.vary(&x);
                if alike || arr_type(&[x.clone(), y.clone()]).is_err() { y = x.clone() }
                let vs = vec![x.clone(); n];
                let mut ws = vs.clone();
                let k = if self.r.pct(60) { n - 1 } else { self.r.below(n) };
                ws[k] = y;
                if !alike && self.r.pct(15) { ws.pop(); }
                if self.r.pct(50) { (mk_tup(vs), mk_tup(ws)) } else { let (t, u) = (arr_type(&vs).unwrap(), arr_type(&ws).unwrap()); (mk_arr(vs, t), mk_arr(ws, u)) }
            }
            4 => {
                let n = big_len(self.r, self.d, 600).max(1);
                let ps: Vec<(String, V)> = (0..n).map(|i| (format!("f{}", i), V::Int(BigInt::from(i)))).collect();
                let mut qs = ps.clone();
                if !alike { let k = if self.r.pct(60) { n - 1 } else { self.r.below(n) }; if self.r.pct(50) { qs[k].0.push('_') } else { qs[k].1 = V::Null } }
                (mk_obj(ps, None), mk_obj(qs, None))
            }
            _ => {
                // Parents behind parents, or containers in containers.
                let n = self.r.range(1, 61);
                let x = self.any(0);
                let mut y = self.vary(&x);
                if alike { y = x.clone() }
                let style = self.r.below(4);
                let (mut a, mut b) = (mk_obj(vec![("x".into(), x)], None), mk_obj(vec![("x".into(), y)], None));
                for i in 0..n {
                    let f = format!("f{}", i);
                    let up = |v: V| match (style, v) { (0, V::Obj(o)) => mk_obj(vec![(f.clone(), V::Null)], Some(o)), (1, v) => mk_tup(vec![v]), (2, v) => { let t = vtype(&v); mk_arr(vec![v], t) } (_, v) => mk_obj(vec![(f.clone(), v)], None) };
                    a = up(a); b = up(b);
                }
                (a, b)
            }
        }
    }
    pub fn arr(&mut self, depth: usize) -> V {
        let n = if self.r.pct(3) { gen_len(self.r, self.d, 4) } else { self.r.below(4) };
        let mut vs: Vec<V> = vec![];
        for i in 0..n {
            let v = if i == 0 || vs.is_empty() { self.any(depth.saturating_sub(1)) } else { let x = vs[self.r.below(vs.len())].clone(); self.vary(&x) };
            vs.push(v);
            if arr_type(&vs).is_err() { vs.pop(); }
        }
        let t = arr_type(&vs).unwrap();
        mk_arr(vs, t)
    }
    pub fn tup(&mut self, depth: usize) -> V { let n = if self.r.pct(2) { gen_len(self.r, self.d, 20) } else { self.r.below(4) }; let vs = (0..n).map(|_| self.any(depth.saturating_sub(1))).collect(); mk_tup(vs) }
    pub fn obj(&mut self, depth: usize) -> Rc<O> {
        let n = if self.r.pct(3) { gen_len(self.r, self.d, 4) } else { self.r.below(4) };
        let mut ps: Vec<(String, V)> = vec![];
        for _ in 0..n {
            let mut f = gen_name(self.r, self.d);
            if n > 8 && sp_find(&ps, &f).is_some() { f = format!("{}_{}", f, ps.len()) }
            if sp_find(&ps, &f).is_some() && self.writable { continue }
            ps.push((f, self.any(depth.saturating_sub(1))));
        }
        let parent = if depth > 0 && self.r.pct(30) { Some(self.obj(depth - 1)) } else { None };
        Rc::new(O { pairs: ps, parent, tag: 0 })
    }
    /// Something like `v`: the same, rebuilt, or slightly different.
    pub fn vary(&mut self, v: &V) -> V {
        match v {
            _ if self.r.pct(25) => v.clone(),
            V::Null => if self.r.pct(90) { V::Null } else { V::Bool(false) },
            V::Bool(b) => if self.r.pct(90) { V::Bool(self.r.pct(50)) } else { V::Int(BigInt::from(*b as u8)) },
            V::Int(i) => match self.r.below(12) { 0 => V::Frac(BigRational::from_integer(i.clone())), 1 => V::Int(-i), 2 => V::Int(i + BigInt::from(1)), 3 => V::Str(i.to_string()), 4 => V::Int(i + (BigInt::from(1) << 64usize)), 5..=7 => V::Int(gen_int(self.r, self.d)), _ => V::Int(i.clone()) },
            V::Frac(q) => match self.r.below(12) { 0 => V::Int(q.numer().clone()), 1 => V::Frac(-q), 2 => V::Frac(q + BigRational::from_integer(BigInt::from(1))), 3..=6 => V::Frac(gen_frac(self.r, self.d)), _ => V::Frac(q.clone()) },
            V::Str(s) => match self.r.below(12) { 0 => V::Str(format!("{} ", s)), 1 => V::Str(s.to_uppercase()), 2..=6 => V::Str(gen_str(self.r, self.d)), 7 => V::Str(s.chars().rev().collect()), _ => V::Str(s.clone()) },
            V::Arr(a) => {
                let mut vs: Vec<V> = a.0.iter().map(|x| self.vary(x)).collect();
                self.shuffle(&mut vs);
                while arr_type(&vs).is_err() { vs.pop(); }
                let t = arr_type(&vs).unwrap();
                if self.r.pct(4) { return mk_tup(vs) }
                mk_arr(vs, t)
            }
            V::Tup(t) => { let mut vs: Vec<V> = t.0.iter().map(|x| self.vary(x)).collect(); if self.r.pct(15) { self.shuffle(&mut vs) } mk_tup(vs) }
            V::Obj(o) => V::Obj(self.vary_obj(o)),
        }
    }
    fn shuffle(&mut self, vs: &mut Vec<V>) {
        match self.r.below(10) { 0 => { vs.pop(); } 1 => { let v = if vs.is_empty() { self.any(0) } else { vs[0].clone() }; vs.push(v) } 2 if vs.len() > 1 => { let k = self.r.below(vs.len() - 1); vs.swap(k, k + 1) } 3 if vs.len() > 0 => { vs.remove(0); } _ => () }
    }
    pub fn vary_obj(&mut self, o: &Rc<O>) -> Rc<O> {
        let keep = self.r.pct(50);
        let mut ps: Vec<(String, V)> = o.pairs.iter().map(|(n, v)| (n.clone(), if keep { v.clone() } else { self.vary(v) })).collect();
        match self.r.below(12) { 0 => { ps.pop(); } 1 if ps.len() > 1 => { let k = self.r.below(ps.len() - 1); ps.swap(k, k + 1) } 2 if ps.len() > 0 => { let k = self.r.below(ps.len()); let n = format!("{}_", ps[k].0); if sp_find(&ps, &n).is_none() { ps[k].0 = n } } 3 => { let v = self.any(0); let n = gen_name(self.r, self.d); if sp_find(&ps, &n).is_none() { ps.push((n, v)) } } _ => () }
        let parent = match (&o.parent, self.r.below(6)) { (Some(_), 0) => None, (None, 0) => Some(self.obj(0)), (Some(p), 1 | 2) => Some(self.vary_obj(p)), (Some(p), 3) => Some(Rc::new(O { pairs: p.pairs.clone(), parent: p.parent.clone(), tag: 0 })), (p, _) => p.clone() };
        Rc::new(O { pairs: ps, parent, tag: 0 })
    }
}
pub fn gen_type(r: &mut Rng, depth: usize) -> T {
    let k = if depth == 0 { r.below(9) } else { r.below(14) };
    match k { 0..=2 => T::Any, 3 => T::Null, 4 => T::Bool, 5 => T::Int, 6 => T::Frac, 7 => T::Str, 8 => T::Obj, 9..=11 => tarr(gen_type(r, depth - 1)), _ => { let n = if r.pct(3) { r.below(20) } else { r.below(4) }; T::Tup((0..n).map(|_| gen_type(r, depth - 1)).collect()) } }
}
/// A type that differs a little, often by an Any.
pub fn vary_type(r: &mut Rng, t: &T) -> T {
    if r.pct(15) { return T::Any }
    if r.pct(6) { return gen_type(r, 1) }
    match t { T::Any => if r.pct(50) { gen_type(r, 2) } else { T::Any }, T::Arr(x) => tarr(vary_type(r, x)),
        T::Tup(xs) => { let mut v: Vec<T> = xs.iter().map(|x| vary_type(r, x)).collect(); match r.below(20) { 0 => { v.pop(); } 1 => v.push(T::Any), 2 if v.len() > 1 => v.swap(0, 1), _ => () } T::Tup(v) } _ => t.clone() }
}
