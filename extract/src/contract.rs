//! Reader for the contract files (*.vc): contracts and proof annotations attached to the functions
//! of /repo by name.
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Clause { pub tags: Vec<String>, pub text: String }
#[derive(Clone, Debug, Default)]
pub struct LoopAnn {
    pub inv: Vec<Clause>, pub xinv: Vec<Clause>, pub ens: Vec<Clause>, pub dec: Option<String>,
    pub begin: Option<String>, pub end: Option<String>, pub after: Option<String>, pub before: Option<String>,
}
#[derive(Clone, Debug, Default)]
pub struct IterAnn { pub pred: Option<String>, pub inv: Vec<Clause>, pub before: Option<String>, pub begin: Option<String>, pub end: Option<String>, pub after: Option<String> }
#[derive(Clone, Debug, Default)]
pub struct FnAnn {
    pub name: String, pub props: Vec<String>, pub ret: Option<String>, pub attrs: Vec<String>,
    pub req: Vec<Clause>, pub ens: Vec<Clause>, pub dec: Option<String>, pub entry: Option<String>, pub tail: Option<String>, pub tail_tags: Vec<String>,
    pub loops: BTreeMap<usize, LoopAnn>, pub iters: BTreeMap<usize, IterAnn>,
    pub subs: Vec<(String, String)>, pub inlines: Vec<(String, String)>,
    pub calls: Vec<(bool, String, usize, String, Vec<String>)>, // (before?, callee, ordinal (0: each), proof, tags)
    pub links: Vec<String>,
    pub skip: Option<String>, pub in_impl: Option<String>, pub spec_items: Option<String>, pub used: bool,
    pub external: bool, pub literals: bool,
}

struct Node { indent: usize, text: String, kids: Vec<Node> }

fn parse_nodes(lines: &[(usize, String)], i: &mut usize, min: usize) -> Vec<Node> {
    let mut out = vec![];
    while *i < lines.len() && lines[*i].0 >= min {
        let (ind, t) = lines[*i].clone();
        *i += 1;
        let kids = parse_nodes(lines, i, ind + 1);
        out.push(Node { indent: ind, text: t, kids });
    }
    out
}
fn full(n: &Node) -> String {
    let mut s = String::new();
    fn rec(n: &Node, s: &mut String) { s.push_str(&n.text); s.push('\n'); for k in &n.kids { rec(k, s) } }
    for k in &n.kids { rec(k, &mut s) }
    s
}
fn text_of(n: &Node, after: &str) -> String {
    let mut s = after.trim().to_string();
    if !n.kids.is_empty() { if !s.is_empty() { s.push('\n'); } s.push_str(full(n).trim_end()); }
    s
}
fn split_kw(t: &str) -> (String, Vec<String>, String) {
    // keyword[tags] rest
    let mut kw = String::new(); let mut tags = vec![];
    let mut it = t.char_indices().peekable(); let mut pos = t.len();
    while let Some(&(i, c)) = it.peek() {
        if c == '[' { let e = t[i..].find(']').unwrap() + i; tags = t[i+1..e].split(|c: char| c == ',' || c == ' ').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(); pos = e + 1; break; }
        if c.is_whitespace() { pos = i; break; }
        kw.push(c); it.next();
    }
    (kw, tags, t[pos..].trim().to_string())
}

pub fn load(dir: &str) -> BTreeMap<String, FnAnn> {
    let mut out: BTreeMap<String, FnAnn> = BTreeMap::new();
    let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "vc")).collect();
    files.sort();
    for f in files {
        let src = std::fs::read_to_string(&f).unwrap();
        let lines: Vec<(usize, String)> = src.lines().filter(|l| !l.trim().is_empty() && !l.trim_start().starts_with("//#")).map(|l| (l.len() - l.trim_start().len(), l.trim().to_string())).collect();
        let mut i = 0;
        for n in parse_nodes(&lines, &mut i, 0) {
            let rest = n.text.strip_prefix("fn ").unwrap_or_else(|| panic!("{:?}: bad top-level line {}", f, n.text));
            let (name, props) = match rest.rfind('[') { Some(k) if rest.ends_with(']') => (rest[..k].trim().to_string(), rest[k+1..rest.len()-1].split_whitespace().map(|s| s.to_string()).collect()), _ => (rest.trim().to_string(), vec![]) };
            let mut a = FnAnn { name: name.clone(), props, ..Default::default() };
            for k in &n.kids {
                let (kw, tags, rest) = split_kw(&k.text);
                match kw.as_str() {
                    "ret" => a.ret = Some(rest),
                    "attr" => a.attrs.push(text_of(k, &rest)),
                    "req" => a.req.push(Clause { tags, text: text_of(k, &rest) }),
                    "ens" => a.ens.push(Clause { tags, text: text_of(k, &rest) }),
                    "dec" => a.dec = Some(text_of(k, &rest)),
                    "entry" => a.entry = Some(text_of(k, &rest)),
                    "tail" => { a.tail = Some(text_of(k, &rest)); a.tail_tags = tags; }
                    "skip" => a.skip = Some(rest),
                    "external" => a.external = true,
                    "link" => a.links.push(text_of(k, &rest)),
                    "literals" => a.literals = true,
                    "impl" => a.in_impl = Some(rest),
                    "spec" => a.spec_items = Some(text_of(k, &rest)),
                    "sub" => { let p: Vec<&str> = rest.split("=>").collect(); a.subs.push((p[0].trim().trim_matches('`').to_string(), p[1].trim().trim_matches('`').to_string())); }
                    "inline" => { let p: Vec<&str> = rest.split_whitespace().collect(); a.inlines.push((p[0].to_string(), p[1].to_string())); }
                    "before" | "after" => { let p: Vec<&str> = rest.split_whitespace().collect(); let ord = if p.len() > 1 { p[1].parse().unwrap() } else { 1 }; a.calls.push((kw == "before", p[0].to_string(), ord, full(k), tags)); }
                    "loop" => {
                        let ord: usize = rest.parse().unwrap(); let mut l = LoopAnn::default();
                        for q in &k.kids { let (kw, tags, rest) = split_kw(&q.text); let t = text_of(q, &rest);
                            match kw.as_str() { "inv" => l.inv.push(Clause{tags,text:t}), "xinv" => l.xinv.push(Clause{tags,text:t}), "ens" => l.ens.push(Clause{tags,text:t}), "dec" => l.dec = Some(t), "begin" => l.begin = Some(t), "end" => l.end = Some(t), "after" => l.after = Some(t), "before" => l.before = Some(t), o => panic!("{}: loop kw {}", name, o) } }
                        a.loops.insert(ord, l);
                    }
                    "iter" => {
                        let ord: usize = rest.parse().unwrap(); let mut l = IterAnn::default();
                        for q in &k.kids { let (kw, tags, rest) = split_kw(&q.text); let t = text_of(q, &rest);
                            match kw.as_str() { "pred" => l.pred = Some(t), "inv" => l.inv.push(Clause{tags,text:t}), "before" => l.before = Some(t), "begin" => l.begin = Some(t), "end" => l.end = Some(t), "after" => l.after = Some(t), o => panic!("{}: iter kw {}", name, o) } }
                        a.iters.insert(ord, l);
                    }
                    o => panic!("{}: unknown keyword {}", name, o),
                }
                let _ = k.indent;
            }
            for b in instances(&a) { let n = b.name.clone(); if out.insert(n.clone(), b).is_some() { panic!("duplicate contract {}", n); } }
        }
    }
    out
}

/// `name{x,y}` stands for one contract per alternative, with `$T` in every text replaced by it;
/// `x=y` gives `$T` as x and `$U` as y.
fn instances(a: &FnAnn) -> Vec<FnAnn> {
    let (o, c) = match (a.name.find('{'), a.name.find('}')) { (Some(o), Some(c)) => (o, c), _ => return vec![a.clone()] };
    a.name[o + 1..c].split(',').map(|alt| {
        let (t, u) = match alt.trim().split_once('=') { Some((t, u)) => (t.to_string(), u.to_string()), None => (alt.trim().to_string(), alt.trim().to_string()) };
        let r = |s: &str| s.replace("$T", &t).replace("$U", &u);
        let mut b = a.clone();
        b.name = r(&format!("{}{}{}", &a.name[..o], t, &a.name[c + 1..]));
        for x in b.req.iter_mut().chain(b.ens.iter_mut()) { x.text = r(&x.text); }
        for x in b.attrs.iter_mut().chain(b.links.iter_mut()) { *x = r(x); }
        for x in [&mut b.dec, &mut b.entry, &mut b.tail, &mut b.in_impl, &mut b.spec_items] { if let Some(y) = x { *y = r(y); } }
        for x in b.subs.iter_mut() { *x = (r(&x.0), r(&x.1)); }
        b
    }).collect()
}
