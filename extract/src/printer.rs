//! Token printer: one statement per line, expanding the VX_* markers to contract text.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::BTreeMap;

/// A piece of contract text placed in the output, with what it is.
#[derive(Clone, Debug)]
pub struct Mark { pub text: String, pub clauses: Vec<(usize, usize, String)> } // (first line, last line, label) relative to text

#[derive(Default)]
pub struct Out { pub s: String, pub line: usize, pub marks: BTreeMap<usize, Mark>, pub labels: Vec<(usize, usize, String)>, pub indent: usize }

impl Out {
    pub fn new() -> Self { Out { line: 1, ..Default::default() } }
    pub fn raw(&mut self, t: &str) { self.line += t.matches('\n').count(); self.s.push_str(t); }
    pub fn nl(&mut self) { if !self.s.ends_with('\n') { self.raw("\n"); } let p = "    ".repeat(self.indent); self.raw(&p); }
    fn word(&mut self, t: &str) { if !self.s.is_empty() && !self.s.ends_with(|c: char| c == ' ' || c == '\n' || c == '(' || c == '[') { self.raw(" "); } self.raw(t); }
    fn mark(&mut self, id: usize) {
        let m = self.marks[&id].clone();
        if !self.s.ends_with('\n') { self.raw("\n"); }
        let base = self.line;
        self.raw(&m.text);
        if !self.s.ends_with('\n') { self.raw("\n"); }
        for (a, b, l) in m.clauses { self.labels.push((base + a, base + b, l)); }
    }
    pub fn tokens(&mut self, ts: TokenStream, brace_level: bool) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        let mut joint = false;
        while i < v.len() {
            match &v[i] {
                TokenTree::Ident(id) => {
                    let name = id.to_string();
                    // VX_PROOF ! ( k ) ;
                    if name == "VX_PROOF" { let k = num(&v[i + 2]); self.mark(k); i += 3; if let Some(TokenTree::Punct(p)) = v.get(i) { if p.as_char() == ';' { i += 1; } } let ind = self.indent; self.raw(&"    ".repeat(ind)); joint = false; continue; }
                    if name == "VxRet" { // VxRet ! ( name , T )
                        if let TokenTree::Group(g) = &v[i + 2] { let gt: Vec<TokenTree> = g.stream().into_iter().collect(); self.word("("); self.raw(&gt[0].to_string()); self.raw(": "); self.tokens(gt[2..].iter().cloned().collect(), false); self.raw(")"); }
                        i += 3; joint = false; continue;
                    }
                    if joint { self.raw(&name) } else { self.word(&name) }
                    joint = false;
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    let t = c.to_string();
                    if joint || c == ';' || c == ',' || c == '.' || c == '?' { self.raw(&t) } else { self.word(&t) }
                    joint = p.spacing() == Spacing::Joint;
                    if c == '\'' { joint = true; }
                    if c == '.' && !joint { joint = true; }
                    if c == ';' && brace_level { self.nl(); }
                    if c == ',' && brace_level { self.nl(); }
                }
                TokenTree::Literal(l) => { let t = l.to_string(); if joint { self.raw(&t) } else { self.word(&t) } joint = false; }
                TokenTree::Group(g) => {
                    joint = false;
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
                            if let Some(TokenTree::Ident(id)) = inner.first() {
                                let n = id.to_string();
                                if n == "VX_FN" || n == "VX_INV" {
                                    let k = num(&inner[2]);
                                    self.mark(k);
                                    inner.drain(0..4);
                                }
                            }
                            self.word("{");
                            self.indent += 1; self.nl();
                            self.tokens(inner.into_iter().collect(), true);
                            self.indent -= 1; self.nl();
                            self.raw("}");
                            if brace_level { self.nl(); }
                        }
                        Delimiter::Parenthesis => { let after_ident = matches!(v.get(i.wrapping_sub(1)), Some(TokenTree::Ident(_))) ; if !after_ident { self.word("(") } else { self.raw("(") } self.tokens(g.stream(), false); self.raw(")"); }
                        Delimiter::Bracket => { self.raw("["); self.tokens(g.stream(), false); self.raw("]"); }
                        Delimiter::None => { self.word(""); self.tokens(g.stream(), false); }
                    }
                }
            }
            i += 1;
        }
    }
}
fn num(t: &TokenTree) -> usize {
    if let TokenTree::Group(g) = t { g.stream().to_string().trim().parse().unwrap() } else { panic!("marker") }
}
