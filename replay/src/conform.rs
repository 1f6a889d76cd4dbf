//! Bounded check of the contracts assumed of std, num-bigint and num-rational: the same statements as in
//! contracts/prelude.rs, evaluated on the real libraries. Characters exhaustively, the rest on samples.
use crate::gen::Rng;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{cast::{FromPrimitive, ToPrimitive}, One, Zero};
use std::collections::{HashMap, HashSet};
use std::path::Path;

fn gcd(a: u128, b: u128) -> u128 { if b == 0 { a } else { gcd(b, a % b) } }
fn rat(n: i128, d: i128) -> (i128, i128) { let g = gcd(n.unsigned_abs(), d.unsigned_abs()) as i128; let s = if d < 0 { -1 } else { 1 }; (s * (n / g), s * (d / g)) }
fn dec_nat(n: u128) -> String { if n < 10 { ((b'0' + n as u8) as char).to_string() } else { dec_nat(n / 10) + &((b'0' + (n % 10) as u8) as char).to_string() } }
fn dec(n: i128) -> String { if n < 0 { format!("-{}", dec_nat(n.unsigned_abs())) } else { dec_nat(n as u128) } }
fn trim_end(s: &[char], c: char) -> &[char] { if s.last() == Some(&c) { trim_end(&s[..s.len() - 1], c) } else { s } }
fn big(n: i128) -> BigInt { BigInt::from_i128(n).unwrap() }
fn parts(q: &BigRational) -> (i128, i128) { (q.numer().to_i128().unwrap(), q.denom().to_i128().unwrap()) }

pub fn run(seed: u64, n: u64) -> Result<u64, String> {
    let mut count = 0u64;
    macro_rules! ck { ($c:expr, $($a:tt)*) => { count += 1; if !$c { return Err(format!($($a)*)) } } }
    // characters, all of them
    for u in 0..=0x10ffffu32 {
        let Some(c) = char::from_u32(u) else { continue };
        ck!(u >= 128 || c.is_alphabetic() == ((65..=90).contains(&u) || (97..=122).contains(&u)), "alphabetic {}", u);
        ck!(u >= 128 || c.is_whitespace() == ((9..=13).contains(&u) || u == 32), "whitespace {}", u);
        ck!(!(c.is_alphabetic() && c.is_whitespace()), "alphabetic and whitespace {}", u);
        ck!(c.is_ascii_digit() == (48..=57).contains(&u), "digit {}", u);
        ck!(c.is_alphanumeric() == (c.is_numeric() || c.is_alphabetic()), "alphanumeric {}", u);
        ck!(format!("{}", c).chars().collect::<Vec<_>>() == [c] && c.to_string() == String::from(c), "display {}", u);
    }
    let mut r = Rng::new(seed);
    let pool: Vec<char> = "ab0019._/\\\"'$\n\t é\u{3b1}\u{2003}\u{1F600}".chars().collect();
    for k in 0..n {
        // texts
        let s: Vec<char> = (0..r.below(9)).map(|_| pool[r.below(pool.len())]).collect();
        let t: String = s.iter().collect();
        let p: Vec<char> = (0..r.below(3)).map(|_| pool[r.below(pool.len())]).collect();
        let pt: String = p.iter().collect();
        let c = pool[r.below(pool.len())];
        ck!(t.chars().collect::<Vec<_>>() == s && t.chars().count() == s.len(), "chars {:?}", t);
        ck!(t.starts_with(c) == (s.first() == Some(&c)) && t.ends_with(c) == (s.last() == Some(&c)), "starts/ends with a character {:?} {:?}", t, c);
        ck!(t.starts_with(pt.as_str()) == s.starts_with(&p) && t.ends_with(pt.as_str()) == s.ends_with(&p), "starts/ends with a text {:?} {:?}", t, pt);
        ck!(t.trim_end_matches(c).chars().collect::<Vec<_>>() == trim_end(&s, c), "trim_end_matches {:?} {:?}", t, c);
        ck!(t.len() >= s.len() && (!s.iter().all(|c| (*c as u32) < 128) || t.len() == s.len()) && t.len() == t.as_bytes().len(), "len {:?}", t);
        let m = r.below(4); let mut rep = vec![]; for _ in 0..m { rep.extend(s.iter().copied()) }
        ck!(t.repeat(m).chars().collect::<Vec<_>>() == rep, "repeat {:?} {}", t, m);
        ck!(format!("{}{}", t, pt).chars().collect::<Vec<_>>() == [&s[..], &p[..]].concat(), "format {:?}", t);
        let mut it = t.chars().peekable(); let mut i = 0;
        loop { let pk = it.peek().copied(); ck!(pk == s.get(i).copied(), "peek {:?}", t); let x = it.next(); ck!(x == pk, "next {:?}", t); if x.is_none() { break } i += 1 }
        // integers
        let bound = [10i128, 300, 70000, 1 << 33, 1 << 60][r.below(5)];
        let mut ri = || { let v = (r.next() as i128 % bound) * if r.below(2) == 0 { 1 } else { -1 }; v };
        let (a, b, x, y) = (ri(), ri(), ri(), ri());
        ck!(big(a).to_string() == dec(a) && (a as usize).to_string() == dec(a as usize as i128), "decimal {}", a);
        ck!((big(a) + big(b), big(a) - big(b), big(a) * big(b), -big(a)) == (big(a + b), big(a - b), big(a * b), big(-a)), "integer operations {} {}", a, b);
        ck!((big(a) == big(b)) == (a == b) && big(a) == big(a) && big(a).clone() == big(a) && big(a).is_zero() == (a == 0), "integer equality {} {}", a, b);
        ck!(big(a).to_usize() == usize::try_from(a).ok() && big(a).to_u8() == u8::try_from(a).ok() && big(a).to_u16() == u16::try_from(a).ok() && big(a).to_u32() == u32::try_from(a).ok() && big(a).to_u64() == u64::try_from(a).ok()
            && big(a).to_i8() == i8::try_from(a).ok() && big(a).to_i16() == i16::try_from(a).ok() && big(a).to_i32() == i32::try_from(a).ok() && big(a).to_i64() == i64::try_from(a).ok(), "integer conversion {}", a);
        ck!(BigInt::from(a as i64) == big(a as i64 as i128) && BigInt::from(a as u8) == big(a as u8 as i128) && BigInt::from(a as usize) == big(a as usize as i128) && BigInt::from(a as i8) == big(a as i8 as i128) && BigInt::from_u8(a as u8) == Some(big(a as u8 as i128)), "integer from {}", a);
        ck!(BigInt::one() == big(1) && BigInt::zero() == big(0), "one and zero");
        if b != 0 { let m = (a.unsigned_abs() % b.unsigned_abs()) as i128; ck!(big(a) % big(b) == big(if a < 0 { -m } else { m }), "remainder {} {}", a, b); }
        let (e, q) = (r.below(25) as u32, r.below(11) as i128);
        let mut pw = 1i128; for _ in 0..e { pw *= q }
        ck!(num_traits::pow(big(q), e as usize) == big(pw), "pow {} {}", q, e);
        let ds: String = (0..1 + r.below(30)).map(|_| (b'0' + r.below(10) as u8) as char).collect();
        let mut v = BigInt::zero(); for ch in ds.chars() { v = v * big(10) + big(ch as i128 - 48) }
        ck!(ds.parse::<BigInt>().ok() == Some(v), "parse {}", ds);
        // fractions
        if b != 0 && y != 0 {
            let (a, b, x, y) = (a % (1 << 30), b % (1 << 30), x % (1 << 30), y % (1 << 30));
            if b == 0 || y == 0 { continue }
            let (f, g) = (BigRational::new(big(a), big(b)), BigRational::new(big(x), big(y)));
            let ((n1, d1), (n2, d2)) = (rat(a, b), rat(x, y));
            ck!(parts(&f) == (n1, d1) && d1 > 0 && gcd(n1.unsigned_abs(), d1 as u128) == 1, "fraction {}/{}", a, b);
            ck!(parts(&(f.clone() + g.clone())) == rat(n1 * d2 + n2 * d1, d1 * d2), "fraction sum {} {}", f, g);
            ck!(parts(&(f.clone() - g.clone())) == rat(n1 * d2 - n2 * d1, d1 * d2), "fraction difference {} {}", f, g);
            ck!(parts(&(f.clone() * g.clone())) == rat(n1 * n2, d1 * d2), "fraction product {} {}", f, g);
            if n2 != 0 { ck!(parts(&(f.clone() / g.clone())) == rat(n1 * d2, d1 * n2), "fraction quotient {} {}", f, g); }
            ck!(parts(&-f.clone()) == (-n1, d1) && parts(&BigRational::from_integer(big(a))) == (a, 1), "fraction negation {}", f);
            ck!(f.is_integer() == (d1 == 1) && f.is_zero() == (n1 == 0) && (f == g) == ((n1, d1) == (n2, d2)), "fraction tests {} {}", f, g);
            ck!(f.to_string() == if d1 == 1 { dec(n1) } else { format!("{}/{}", dec(n1), dec(d1)) }, "fraction text {}/{}", n1, d1);
        }
        // maps and sets
        if k % 16 == 0 {
            let (mut hm, mut hs, mut lm): (HashMap<String, usize>, HashSet<String>, Vec<(String, usize)>) = Default::default();
            for _ in 0..12 {
                let key = pool[r.below(4)].to_string(); let v = r.below(100); let had = lm.iter().any(|x| x.0 == key);
                if r.below(3) > 0 { hm.insert(key.clone(), v); ck!(hs.insert(key.clone()) == !had, "set insert"); lm.retain(|x| x.0 != key); lm.push((key, v)); }
                else { hm.remove(&key); ck!(hs.remove(&key) == had, "set remove"); lm.retain(|x| x.0 != key); }
                for c in &pool[..4] { let key = c.to_string(); let want = lm.iter().find(|x| x.0 == key).map(|x| x.1); ck!(hm.get(&key).copied() == want && hm.contains_key(&key) == want.is_some() && hs.contains(key.as_str()) == want.is_some(), "map get"); }
            }
        }
        // paths: the text of a path names that path
        let ps: String = (0..r.below(8)).map(|_| ['/', '.', 'a', 'b', ' ', 'é'][r.below(6)]).collect();
        let pa = Path::new(&ps);
        ck!(pa.to_str() == Some(ps.as_str()) && Path::new(pa.to_str().unwrap()) == pa && pa.to_path_buf().as_path() == pa, "path {:?}", ps);
    }
    // a readable file has a parent directory
    std::fs::create_dir_all("cd/e").map_err(|e| e.to_string())?; std::fs::write("cd/e/f", "x").map_err(|e| e.to_string())?; std::fs::write("g", "x").map_err(|e| e.to_string())?;
    let abs = std::fs::canonicalize("g").map_err(|e| e.to_string())?;
    for f in ["g", "./g", "cd/e/f", "cd/../g", "cd/e/../../g", abs.to_str().unwrap()] { ck!(std::fs::read_to_string(f).is_ok() && Path::new(f).parent().is_some() && Path::new(f).is_file(), "parent of {}", f); }
    for f in ["", "/", ".", "..", "cd", "cd/..", "/.."] { ck!(std::fs::read_to_string(f).is_err(), "{} is readable", f); }
    // a counter that is only ever incremented by one gives each number once
    static CTR: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let hs: Vec<_> = (0..4).map(|_| std::thread::spawn(|| (0..2000).map(|_| CTR.fetch_add(1, std::sync::atomic::Ordering::Relaxed)).collect::<Vec<_>>())).collect();
    let mut all = vec![]; for h in hs { all.extend(h.join().map_err(|_| "thread".to_string())?) }
    ck!(all.iter().collect::<HashSet<_>>().len() == all.len(), "the counter gives a number twice");
    Ok(count)
}
