#![allow(dead_code)]
mod conform;
mod gen;
mod oracle;
mod props;
use gen::*;
use props::*;
use std::str::FromStr;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const SRC: &str = "/repo/src";
fn quiet() { std::panic::set_hook(Box::new(|_| ())) }
/// On a thread with the stack a main thread has: what exhausts it exhausts a user's.
fn on_stack<X: Send + 'static>(f: impl FnOnce() -> X + Send + 'static) -> X { std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().unwrap() }
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 || c as u32 > 126 => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)) } } c => o.push(c) } } o.push('"'); o }
fn setup() { let _ = std::fs::create_dir_all(scratch()); std::env::set_current_dir(scratch()).unwrap(); }
fn cleanup() { let _ = std::env::set_current_dir("/"); let _ = std::fs::remove_dir_all(scratch()); }

fn child(prop: String, seed: u64, cases: u64, secs: u64, out: String) {
    setup();
    let d = Dict::load(SRC);
    let cur = std::fs::File::create(format!("{}.cur", out)).unwrap();
    let start = Instant::now();
    let mut cats: BTreeMap<String, u64> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut n = 0;
    let mut found = None;
    while n < cases && start.elapsed() < Duration::from_secs(secs) {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(n));
        let case = generate(&prop, &mut r, &d);
        let text = case.save(&prop);
        let _ = cur.set_len(0);
        let _ = cur.write_all_at(text.as_bytes(), 0);
        let mut h = std::collections::hash_map::DefaultHasher::new();
        text.hash(&mut h);
        n += 1;
        match check(&prop, &case, &d) {
            Ok(c) => { if c != "none" && c != "too deep" { seen.insert(h.finish()); } *cats.entry(c).or_default() += 1; if samples.len() < 3 && n % 7 == 3 { samples.push(text.chars().take(200).collect()) } }
            Err(e) => { found = Some((case, e)); break }
        }
    }
    if let Some((case, e)) = found {
        let (case, e) = shrink(&prop, case, e, &d);
        std::fs::write(format!("{}.viol", out), format!("{}why\n{}\n", case.save(&prop), e)).unwrap();
    }
    let cs: Vec<String> = cats.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let ss: Vec<String> = samples.iter().map(|s| js(s)).collect();
    std::fs::write(format!("{}.stats", out), format!("{{\"cases\": {}, \"distinct\": {}, \"outcomes\": {{{}}}, \"samples\": [{}], \"secs\": {:.2}}}", n, seen.len(), cs.join(", "), ss.join(", "), start.elapsed().as_secs_f64())).unwrap();
    cleanup();
}
/// Smaller cases that still fail.
fn shrink(prop: &str, case: Case, e: String, d: &Dict) -> (Case, String) {
    let (mut best, mut why) = (case, e);
    let start = Instant::now();
    fn cut(s: &str, f: &mut dyn FnMut(&str) -> bool) -> String {
        let mut c: Vec<char> = s.chars().collect();
        let mut k = (c.len() / 2).max(1);
        loop {
            let mut i = 0;
            let mut any = false;
            while i < c.len() {
                let t: String = c[..i].iter().chain(&c[(i + k).min(c.len())..]).collect();
                if f(&t) { c = t.chars().collect(); any = true } else { i += k }
            }
            if k == 1 && !any { break }
            if !any { k = (k / 2).max(1) }
        }
        c.into_iter().collect()
    }
    let late = || start.elapsed() > Duration::from_secs(5);
    match best.clone() {
        Case::Doc(s) => { cut(&s, &mut |t| { if late() { return false } match check(prop, &Case::Doc(t.into()), d) { Err(e) => { best = Case::Doc(t.into()); why = e; true } _ => false } }); }
        Case::Tree(fs, main) => {
            let mut fs = fs;
            let mut i = 0;
            while i < fs.len() { let mut t = fs.clone(); t.remove(i); match check(prop, &Case::Tree(t.clone(), main.clone()), d) { Err(e) if !late() => { fs = t; why = e } _ => i += 1 } }
            for i in 0..fs.len() {
                let Content::Bytes(b) = fs[i].1.clone() else { continue };
                let Ok(s) = String::from_utf8(b) else { continue };
                let base = fs.clone();
                let mut w2 = None;
                let t = cut(&s, &mut |t| { if late() { return false } let mut f2 = base.clone(); f2[i].1 = Content::Bytes(t.as_bytes().to_vec()); match check(prop, &Case::Tree(f2, main.clone()), d) { Err(e) => { w2 = Some(e); true } _ => false } });
                fs[i].1 = Content::Bytes(t.into_bytes());
                if let Some(e) = w2 { why = e }
            }
            best = Case::Tree(fs, main);
        }
        _ => (),
    }
    (best, why)
}
enum Run { Fine, Broken(String) }
/// Runs a saved case in a process of its own.
fn confirm(file: &str, secs: u64) -> Run {
    let me = std::env::current_exe().unwrap();
    let mut p = Command::new("sh").arg("-c").arg("ulimit -v 12000000; exec \"$0\" run \"$1\"").arg(&me).arg(file).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let start = Instant::now();
    loop {
        match p.try_wait().unwrap() {
            Some(st) => {
                let mut s = String::new();
                use std::io::Read;
                let _ = p.stdout.take().unwrap().read_to_string(&mut s);
                return match st.code() { Some(0) => Run::Fine, Some(1) => Run::Broken(s), c => Run::Broken(format!("the process dies: exit code {:?}, signal {:?} (stack exhausted, out of memory or aborted)", c, st.signal())) };
            }
            None => {
                if start.elapsed() > Duration::from_secs(secs) { let _ = p.kill(); let _ = p.wait(); return Run::Broken(format!("no answer within {} seconds", secs)) }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
    }
}
fn search(prop: &str, seed: u64, cases: u64, secs: u64, out: &str, procs: u64) -> i32 {
    std::fs::create_dir_all(out).unwrap();
    let me = std::env::current_exe().unwrap();
    let mut kids: Vec<_> = (0..procs).map(|i| {
        let o = format!("{}/{}-{}", out, prop, i);
        for x in ["cur", "viol", "stats"] { let _ = std::fs::remove_file(format!("{}.{}", o, x)); }
        let p = Command::new("sh").arg("-c").arg("ulimit -v 12000000; exec \"$0\" \"$@\"").arg(&me).args(["child", prop, &(seed * 64 + i).to_string(), &cases.to_string(), &secs.to_string(), &o]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        (o, p, None::<std::process::ExitStatus>, String::new(), Instant::now())
    }).collect();
    let mut viol: Option<(String, String)> = None;
    let deadline = Instant::now() + Duration::from_secs(secs + 60);
    while kids.iter().any(|k| k.2.is_none()) && viol.is_none() {
        for k in kids.iter_mut() {
            if k.2.is_some() { continue }
            if let Some(st) = k.1.try_wait().unwrap() {
                k.2 = Some(st);
                if let Ok(s) = std::fs::read_to_string(format!("{}.viol", k.0)) { let (c, w) = s.split_once("why\n").unwrap_or((&s, "")); viol = Some((c.into(), w.into())) }
                else if !st.success() {
                    let f = format!("{}.cur", k.0);
                    if let Run::Broken(w) = confirm(&f, 60) { viol = Some((std::fs::read_to_string(&f).unwrap_or_default(), w)) }
                }
            } else {
                let now = std::fs::read_to_string(format!("{}.cur", k.0)).unwrap_or_default();
                if now != k.3 { k.3 = now; k.4 = Instant::now() }
                if k.4.elapsed() > Duration::from_secs(15) || Instant::now() > deadline {
                    let _ = k.1.kill();
                    k.2 = Some(k.1.wait().unwrap());
                    let f = format!("{}.cur", k.0);
                    if let Run::Broken(w) = confirm(&f, 40) { viol = Some((std::fs::read_to_string(&f).unwrap_or_default(), w)) }
                }
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for k in kids.iter_mut() { if k.2.is_none() { let _ = k.1.kill(); let _ = k.1.wait(); } let pid = k.1.id(); let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("vreplay-{}", pid))); }
    if let Some((c, w)) = viol {
        let f = format!("{}/{}.case", out, prop);
        std::fs::write(&f, format!("{}# {}\n", c, w.trim_end().replace('\n', "\n# "))).unwrap();
        println!("FOUND {}", f);
        return 1;
    }
    println!("NONE");
    0
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("search") => search(&a[2], n(3), n(4), n(5), &a[6], n(7)),
        Some("child") => { quiet(); let (p, s, c, t, o) = (a[2].clone(), n(3), n(4), n(5), a[6].clone()); on_stack(move || child(p, s, c, t, o)); 0 }
        Some("run") => {
            quiet();
            let s = std::fs::read_to_string(&a[2]).unwrap();
            let Some((prop, case)) = Case::load(&s) else { println!("no case in {}", a[2]); std::process::exit(2) };
            on_stack(move || { setup(); let d = Dict::load(SRC); let r = check(&prop, &case, &d); cleanup(); match r { Ok(c) => { println!("holds ({})", c); 0 } Err(e) => { println!("property {} fails: {}", prop, e); 1 } } })
        }
        // the recorded findings, run on a stack of the usual size: the exit code says whether they still fail
        Some("known") => {
            assert_eq!(a[2], "D5");
            let mut d = String::from("@a0: {}\n");
            for i in 1..500_000 { d.push_str(&format!("@a{}: {{a: @a{}}}\n", i, i - 1)) }
            d.push_str("x: @a499999\n");
            on_stack(move || { let r = over::obj::Obj::from_str(&d); println!("parsed: {}", r.is_ok()); drop(r); });
            0
        }
        // the contracts assumed of the libraries, on the real libraries
        Some("conform") => { quiet(); let (s, k) = (n(2), n(3)); on_stack(move || { setup(); let r = conform::run(s, k); cleanup(); match r { Ok(c) => { println!("CONFORM {}", c); 0 } Err(e) => { println!("BROKEN {}", e); 1 } } }) }
        Some("gen") => { let d = Dict::load(SRC); for i in 0..n(4) { let mut r = Rng::new(n(3).wrapping_mul(1_000_003).wrapping_add(i)); print!("{}", generate(&a[2], &mut r, &d).save(&a[2])) } 0 }
        _ => { eprintln!("vreplay search PROP SEED CASES SECS OUTDIR PROCS | run FILE | gen PROP SEED N"); 2 }
    };
    std::process::exit(code);
}
