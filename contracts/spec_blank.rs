// ------------------------------------------------------------------ blanks carry no meaning (C13)
// The normal form of a text: strings decoded, every run of blanks and comments outside strings one Blank,
// and none at all just inside a bracket, after a colon, or at the end.  Texts with the same normal form
// denote the same data.
pub enum Tok { C(char), Blank, S(Seq<char>), Bad }
pub open spec fn blank(c: char) -> bool { is_ws(c) || c == '#' }
/// Blanks after these are dropped.
pub open spec fn opens(c: char) -> bool { c == '{' || c == '[' || c == '(' || c == '<' || c == ':' }
#[verifier::opaque] pub open spec fn norm(s: Seq<char>, p: int) -> Seq<Tok> decreases s.len() - p {
    if p < 0 || p >= s.len() { Seq::empty() }
    else if blank(s[p]) {
        let q = skip(s, p);
        if !(p < q <= s.len()) { Seq::empty() } else if q >= s.len() || end_delim(s[q]) { norm(s, q) } else { seq![Tok::Blank] + norm(s, q) }
    }
    else if s[p] == '"' { match str_scan(s, p + 1, Seq::empty(), false) { StrScan::Done(x, q) => if p < q <= s.len() { seq![Tok::S(x)] + norm(s, q) } else { seq![Tok::Bad] }, _ => seq![Tok::Bad] } }
    else if opens(s[p]) { let q = skip(s, p + 1); if p < q <= s.len() { seq![Tok::C(s[p])] + norm(s, q) } else { Seq::empty() } }
    else { seq![Tok::C(s[p])] + norm(s, p + 1) }
}
pub open spec fn norm_text(s: Seq<char>) -> Seq<Tok> { norm(s, skip(s, 0)) }
/// What is left of the two texts has the same normal form.
pub open spec fn al(s: Seq<char>, p: int, t: Seq<char>, q: int) -> bool { 0 <= p <= s.len() && 0 <= q <= t.len() && norm(s, p) == norm(t, q) }
pub open spec fn nonblank(s: Seq<char>, p: int) -> bool { 0 <= p < s.len() ==> !blank(s[p]) }
pub open spec fn strip(x: Seq<Tok>) -> Seq<Tok> { if x.len() > 0 && x[0] == Tok::Blank { x.skip(1) } else { x } }

proof fn lemma_opens(c: char) requires opens(c) || c == '"' ensures !blank(c), !end_delim(c) { axiom_ascii(c); }
proof fn lemma_skip_gt(s: Seq<char>, p: int) requires 0 <= p < s.len(), blank(s[p]) ensures p < skip(s, p) <= s.len() decreases s.len() - p {
    if s[p] == '#' { lemma_line_end(s, p); lemma_skip_at(s, line_end(s, p)); } else { lemma_skip_at(s, p + 1); }
}
proof fn lemma_line_end(s: Seq<char>, p: int) requires 0 <= p < s.len() ensures p < line_end(s, p) <= s.len() decreases s.len() - p { if s[p] != '\n' && p + 1 < s.len() { lemma_line_end(s, p + 1); } else { reveal_with_fuel(line_end, 2); } }
proof fn lemma_str_pos(s: Seq<char>, p: int, acc: Seq<char>, e: bool) ensures str_scan(s, p, acc, e) matches StrScan::Done(x, q) ==> p < q <= s.len() decreases s.len() - p {
    if 0 <= p < s.len() {
        if e { match unesc(s[p]) { Some(ch) => lemma_str_pos(s, p + 1, acc.push(ch), false), None => {} } }
        else if s[p] == '"' { } else if s[p] == '\\' { lemma_str_pos(s, p + 1, acc, true); } else { lemma_str_pos(s, p + 1, acc.push(s[p]), false); }
    }
}
/// What the normal form begins with.
proof fn lemma_norm(s: Seq<char>, p: int)
    ensures !(0 <= p < s.len()) ==> norm(s, p).len() == 0,
        0 <= p < s.len() && blank(s[p]) ==> p < skip(s, p) <= s.len() && (if skip(s, p) >= s.len() || end_delim(s[skip(s, p)]) { norm(s, p) == norm(s, skip(s, p)) } else { norm(s, p) == seq![Tok::Blank] + norm(s, skip(s, p)) }),
        0 <= p < s.len() && s[p] == '"' ==> norm(s, p).len() > 0 && (match str_scan(s, p + 1, Seq::empty(), false) { StrScan::Done(x, q) => p < q <= s.len() && norm(s, p) == seq![Tok::S(x)] + norm(s, q), _ => norm(s, p)[0] == Tok::Bad }),
        0 <= p < s.len() && !blank(s[p]) && s[p] != '"' && opens(s[p]) ==> p < skip(s, p + 1) <= s.len() && norm(s, p) == seq![Tok::C(s[p])] + norm(s, skip(s, p + 1)),
        0 <= p < s.len() && !blank(s[p]) && s[p] != '"' && !opens(s[p]) ==> norm(s, p) == seq![Tok::C(s[p])] + norm(s, p + 1),
{
    reveal_with_fuel(norm, 2);
    if 0 <= p < s.len() {
        axiom_ascii('"');
        if blank(s[p]) { lemma_skip_gt(s, p); } else if s[p] == '"' { lemma_str_pos(s, p + 1, Seq::empty(), false); } else if opens(s[p]) { lemma_skip_at(s, p + 1); }
    }
}
/// The first token where something other than a blank is.
proof fn lemma_head(s: Seq<char>, p: int) requires 0 <= p <= s.len(), nonblank(s, p)
    ensures p == s.len() ==> norm(s, p).len() == 0,
        p < s.len() ==> norm(s, p).len() > 0 && norm(s, p)[0] != Tok::Blank,
        p < s.len() && s[p] != '"' ==> norm(s, p)[0] == Tok::C(s[p]),
        p < s.len() && s[p] == '"' ==> !(norm(s, p)[0] is C)
{ lemma_norm(s, p); }
proof fn lemma_strip(s: Seq<char>, p: int) requires 0 <= p <= s.len() ensures 0 <= skip(s, p) <= s.len(), nonblank(s, skip(s, p)), norm(s, skip(s, p)) == strip(norm(s, p)) {
    lemma_norm(s, p); lemma_skip_at(s, p); lemma_head(s, skip(s, p));
    if p < s.len() && blank(s[p]) {
        let q = skip(s, p);
        if !(q >= s.len() || end_delim(s[q])) { assert((seq![Tok::Blank] + norm(s, q)).skip(1) =~= norm(s, q)); }
    } else { reveal_with_fuel(skip, 2); assert(skip(s, p) == p); }
}
proof fn al_skip(s: Seq<char>, p: int, t: Seq<char>, q: int) requires al(s, p, t, q)
    ensures al(s, skip(s, p), t, skip(t, q)), nonblank(s, skip(s, p)), nonblank(t, skip(t, q)), p <= skip(s, p), q <= skip(t, q) { lemma_strip(s, p); lemma_strip(t, q); lemma_skip_at(s, p); lemma_skip_at(t, q); }
proof fn lemma_tail(x: Tok, a: Seq<Tok>, b: Seq<Tok>) requires seq![x] + a == seq![x] + b ensures a == b { assert((seq![x] + a).skip(1) =~= a); assert((seq![x] + b).skip(1) =~= b); }
/// An ordinary character is matched by the same character.
proof fn al_char(s: Seq<char>, p: int, t: Seq<char>, q: int) requires al(s, p, t, q), p < s.len(), !blank(s[p]), s[p] != '"', !end_delim(s[p]) || nonblank(t, q)
    ensures q < t.len(), t[q] == s[p], opens(s[p]) ==> al(s, skip(s, p + 1), t, skip(t, q + 1)) && nonblank(s, skip(s, p + 1)) && nonblank(t, skip(t, q + 1)) && p < skip(s, p + 1), !opens(s[p]) ==> al(s, p + 1, t, q + 1)
{
    lemma_norm(s, p); lemma_norm(t, q); lemma_head(s, p);
    if q < t.len() {
        if blank(t[q]) { lemma_strip(t, q); lemma_head(t, skip(t, q)); lemma_norm(t, skip(t, q)); lemma_opens('"'); }
        assert(!blank(t[q]));
        lemma_head(t, q);
        assert(t[q] == s[p]);
        if opens(s[p]) { lemma_tail(Tok::C(s[p]), norm(s, skip(s, p + 1)), norm(t, skip(t, q + 1))); lemma_strip(s, p + 1); lemma_strip(t, q + 1); }
        else { lemma_tail(Tok::C(s[p]), norm(s, p + 1), norm(t, q + 1)); }
    }
}
/// A string by one with the same content.
proof fn al_str(c: Cx, p: int, c2: Cx, q: int) requires al(c.s, p, c2.s, q), p < c.s.len(), c.s[p] == '"', sp_str(c, p) is Ok
    ensures q < c2.s.len(), c2.s[q] == '"', sp_str(c2, q) matches Ok((v, r2)) && sp_str(c, p) matches Ok((w, r)) && v == w && al(c.s, r, c2.s, r2) && q < r2
{
    let s = c.s; let t = c2.s;
    lemma_norm(s, p); lemma_norm(t, q);
    if q < t.len() {
        if blank(t[q]) { lemma_strip(t, q); lemma_head(t, skip(t, q)); lemma_opens('"'); let k = skip(t, q); if k < t.len() && t[k] == '"' { lemma_norm(t, k); } }
        else { lemma_head(t, q); }
        assert(t[q] == '"');
        if let StrScan::Done(x, r) = str_scan(s, p + 1, Seq::empty(), false) {
            if let StrScan::Done(y, r2) = str_scan(t, q + 1, Seq::empty(), false) {
                assert((seq![Tok::S(x)] + norm(s, r))[0] == Tok::S(x)); assert((seq![Tok::S(y)] + norm(t, r2))[0] == Tok::S(y));
                lemma_tail(Tok::S(x), norm(s, r), norm(t, r2));
            } else { assert((seq![Tok::S(x)] + norm(s, r))[0] == Tok::S(x)); }
        }
    }
}
pub open spec fn stop(s: Seq<char>, p: int) -> bool { p >= s.len() || blank(s[p]) || end_delim(s[p]) }
/// Where one token ends, the other does.
proof fn al_stop(s: Seq<char>, p: int, t: Seq<char>, q: int) requires al(s, p, t, q), stop(s, p) ensures stop(t, q) {
    if !stop(t, q) {
        lemma_head(t, q);
        if p < s.len() && blank(s[p]) {
            lemma_norm(s, p); lemma_strip(s, p); let k = skip(s, p); lemma_head(s, k); lemma_opens('"');
            if k < s.len() && end_delim(s[k]) { if t[q] == '"' { } else { assert(norm(t, q)[0] == Tok::C(s[k])); } }
            else if k < s.len() { assert((seq![Tok::Blank] + norm(s, k))[0] == Tok::Blank); }
        } else { lemma_head(s, p); if p < s.len() { lemma_opens('"'); } }
    }
}

// ------------------------------------------------------------------ the scanners
proof fn lemma_fc(c: char, first: bool) requires field_char(c, first) || is_digit_c(c) || c == '@' || c == '.' || c == ',' || c == '_' || op_char(c) ensures !blank(c), !end_delim(c), c != '"', !opens(c) { axiom_ascii(c); }
/// What a name or an index may begin with.
pub open spec fn startv(s: Seq<char>, p: int) -> bool { 0 <= p < s.len() && (s[p] == '@' || field_char(s[p], true) || is_digit_c(s[p]) || s[p] == '.' || s[p] == ',') }
proof fn bl_var(s: Seq<char>, p: int, t: Seq<char>, q: int, acc: Seq<char>) requires al(s, p, t, q)
    ensures var_scan(s, p, acc) matches VarScan::Done(n, r, dot, dg) ==> (var_scan(t, q, acc) matches VarScan::Done(n2, r2, dot2, dg2) && n2 == n && dot2 == dot && dg2 == dg && al(s, r, t, r2) && q <= r2 && (startv(s, p) ==> q < r2) && (dot && !dg ==> startv(s, r)))
    decreases s.len() - p
{
    axiom_ascii('.'); if p < s.len() { axiom_ascii(s[p]); if startv(s, p) { lemma_fc(s[p], true); } }
    if p < s.len() && s[p] == '.' { al_char(s, p, t, q); if p + 1 < s.len() { let n = s[p + 1]; if n == '@' || field_char(n, true) || is_digit_c(n) || n == '.' || n == ',' { lemma_fc(n, true); al_char(s, p + 1, t, q + 1); } } }
    else if stop(s, p) { al_stop(s, p, t, q); }
    else if op_char(s[p]) { lemma_fc(s[p], true); al_char(s, p, t, q); }
    else if field_char(s[p], false) { lemma_fc(s[p], false); al_char(s, p, t, q); bl_var(s, p + 1, t, q + 1, acc.push(s[p])); }
}
proof fn bl_num(s: Seq<char>, p: int, t: Seq<char>, q: int, a: Seq<char>, b: Seq<char>, dec: bool, under: bool) requires al(s, p, t, q)
    ensures num_scan(s, p, a, b, dec, under) matches NumScan::Done(x, y, f, r) ==> (num_scan(t, q, a, b, dec, under) matches NumScan::Done(x2, y2, f2, r2) && x2 == x && y2 == y && f2 == f && al(s, r, t, r2) && q <= r2 && (p < s.len() && (is_digit_c(s[p]) || s[p] == '.' || s[p] == ',') ==> q < r2))
    decreases s.len() - p
{
    if p < s.len() { axiom_ascii(s[p]); if is_digit_c(s[p]) || s[p] == '.' || s[p] == ',' { lemma_fc(s[p], true); } }
    if stop(s, p) { al_stop(s, p, t, q); }
    else if op_char(s[p]) { lemma_fc(s[p], true); al_char(s, p, t, q); }
    else if is_digit_c(s[p]) { lemma_fc(s[p], false); al_char(s, p, t, q); if dec { bl_num(s, p + 1, t, q + 1, a, b.push(s[p]), dec, false); } else { bl_num(s, p + 1, t, q + 1, a.push(s[p]), b, dec, false); } }
    else if s[p] == '.' || s[p] == ',' { if !dec { lemma_fc(s[p], false); al_char(s, p, t, q); bl_num(s, p + 1, t, q + 1, a, b, true, false); } }
    else if s[p] == '_' { if !under { lemma_fc(s[p], false); al_char(s, p, t, q); bl_num(s, p + 1, t, q + 1, a, b, dec, true); } }
}
/// A name up to its colon and the blanks after it; at the end of the text there is nothing to compare.
proof fn bl_name(s: Seq<char>, p: int, t: Seq<char>, q: int, acc: Seq<char>, first: bool) requires al(s, p, t, q)
    ensures ({ let (n, r, ok) = field_scan(s, p, acc, first); ok && skip(s, r) < s.len() ==> ({ let (n2, r2, ok2) = field_scan(t, q, acc, first); ok2 && n2 == n && al(s, skip(s, r), t, skip(t, r2)) && nonblank(s, skip(s, r)) && nonblank(t, skip(t, r2)) && q < skip(t, r2) && 0 <= r2 }) })
    decreases s.len() - p
{
    if p < s.len() {
        if s[p] == ':' && !first { lemma_opens(':'); al_char(s, p, t, q); lemma_skip_at(t, q + 1); }
        else if field_char(s[p], first) { lemma_fc(s[p], first); al_char(s, p, t, q); bl_name(s, p + 1, t, q + 1, acc.push(s[p]), false); }
    } else { reveal_with_fuel(skip, 2); }
}
proof fn bl_field(c: Cx, p: int, c2: Cx, q: int) requires al(c.s, p, c2.s, q), p < c.s.len(), nonblank(c2.s, q)
    ensures sp_field(c, p) matches Ok((n, fk, r)) ==> skip(c.s, r) < c.s.len() ==> (sp_field(c2, q) matches Ok((n2, fk2, r2)) && n2 == n && fk2 == fk && al(c.s, skip(c.s, r), c2.s, skip(c2.s, r2)) && nonblank(c.s, skip(c.s, r)) && nonblank(c2.s, skip(c2.s, r2)) && q < skip(c2.s, r2))
{
    let s = c.s; let t = c2.s;
    if s[p] == '@' { lemma_fc('@', true); al_char(s, p, t, q); bl_name(s, p + 1, t, q + 1, seq!['@'], true); }
    else {
        if q < t.len() && t[q] == '@' { lemma_fc('@', true); al_char(t, q, s, p); }
        bl_name(s, p, t, q, Seq::empty(), true);
    }
}

// ------------------------------------------------------------------ the grammar
/// The same file, reading different texts; the same globals and includes, at different places.
pub open spec fn peer(c: Cx, c2: Cx) -> bool { c.file == c2.file && c.cyc == c2.cyc }
pub open spec fn here(c: Cx, st: St, c2: Cx, s2: St) -> bool { al(c.s, st.p, c2.s, s2.p) && s2.g == st.g && s2.inc == st.inc }
/// After this value comes a closing delimiter that is not the one of its container: no text continues so.
pub open spec fn wrong(s: Seq<char>, p: int, b: Option<char>) -> bool { let k = skip(s, p); 0 <= k < s.len() && end_delim(s[k]) && Some(s[k]) != b }
/// The same result, and the other text was read on from where it was.
pub open spec fn simv(c: Cx, c2: Cx, p2: int, r: Result<(V, St), PErr>, r2: Result<(V, St), PErr>) -> bool { r matches Ok((v, s)) ==> (r2 matches Ok((w, s2)) && w == v && here(c, s, c2, s2) && p2 < s2.p) }
pub open spec fn simt(a: Seq<(V, int, int)>, b: Seq<(V, int, int)>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == b[i].0 }
proof fn bl_fold(c: Cx, c2: Cx, a: V, x: Seq<(V, int, int)>, y: Seq<(V, int, int)>, ops: Seq<BinaryOp>) requires simt(x, y)
    ensures sp_fold(c, a, x, ops) matches Ok(v) ==> sp_fold(c2, a, y, ops) == Ok::<V, PErr>(v) decreases ops.len()
{
    if ops.len() == 0 || x.len() == 0 { } else {
        assert(x[0].0 == y[0].0);
        if let Ok(v) = sp_bin(c, a, x[0].0, ops[0], x[0].1, x[0].2) {
            bl_bin(c, c2, a, x[0].0, ops[0], x[0].1, x[0].2, y[0].1, y[0].2);
            assert forall|i: int| 0 <= i < x.skip(1).len() implies (#[trigger] x.skip(1)[i]).0 == y.skip(1)[i].0 by { assert(x[i + 1].0 == y[i + 1].0); }
            bl_fold(c, c2, v, x.skip(1), y.skip(1), ops.skip(1));
        }
    }
}
proof fn bl_bin(c: Cx, c2: Cx, a: V, b: V, op: BinaryOp, l: int, co: int, l2: int, co2: int) ensures sp_bin(c, a, b, op, l, co) matches Ok(v) ==> sp_bin(c2, a, b, op, l2, co2) == Ok::<V, PErr>(v) { }
proof fn bl_value_end(c: Cx, p: int, c2: Cx, q: int, b: Option<char>) requires al(c.s, p, c2.s, q), sp_value_end(c, p, b) is Ok
    ensures sp_value_end(c2, q, b) is Ok || wrong(c.s, p, b)
{
    let s = c.s; let t = c2.s;
    if stop(s, p) {
        al_stop(s, p, t, q);
        if q < t.len() && end_delim(t[q]) {
            axiom_ascii(t[q]);
            al_skip(s, p, t, q); reveal_with_fuel(skip, 2); assert(skip(t, q) == q);
            let k = skip(s, p);
            lemma_head(s, k); lemma_head(t, q);
            assert(k < s.len() && s[k] == t[q]);
        } else if q < t.len() { axiom_ascii(t[q]); }
    } else { lemma_fc(s[p], true); al_char(s, p, t, q); }
}
/// No value begins with a closing delimiter.
proof fn bl_delim(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>) requires 0 <= st.p < c.s.len(), end_delim(c.s[st.p]) ensures sp_full(c, st, ps, d, b) is Err {
    unfold_sp_full(c, st, ps, d, b); unfold_sp_prim(c, st, ps, d, b); axiom_ascii(c.s[st.p]);
}
/// Nor with a blank.
proof fn bl_noblank(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>) requires sp_prim(c, st, ps, d, b) is Ok ensures 0 <= st.p < c.s.len(), !blank(c.s[st.p]), !end_delim(c.s[st.p]) {
    unfold_sp_prim(c, st, ps, d, b); if 0 <= st.p < c.s.len() { let ch = c.s[st.p]; axiom_ascii(ch); if ch == '"' || opens(ch) { lemma_opens(ch); } else if is_digit_c(ch) || ch == '.' || ch == ',' || ch == '@' || field_char(ch, true) || op_char(ch) { lemma_fc(ch, true); } }
}
proof fn bl_full(c: Cx, st: St, c2: Cx, s2: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>) requires peer(c, c2), here(c, st, c2, s2)
    ensures sp_full(c, st, ps, d, b) matches Ok((v, s)) ==> simv(c, c2, s2.p, sp_full(c, st, ps, d, b), sp_full(c2, s2, ps, d, b)) || wrong(c.s, s.p, b)
    decreases 70 - d, 0int, c.s.len() - st.p, 3int
{
    unfold_sp_full(c, st, ps, d, b); unfold_sp_full(c2, s2, ps, d, b); bl_prim(c, st, c2, s2, ps, d, b);
    if let Ok((v, st1)) = sp_prim(c, st, ps, d, b) { if st.p < st1.p <= c.s.len() {
        let st12 = sp_prim(c2, s2, ps, d, b)->Ok_0.1;
        let v1 = seq![(v, ln(c.s, st.p), cl(c.s, st.p))]; let v2 = seq![(v, ln(c2.s, s2.p), cl(c2.s, s2.p))];
        bl_chain(c, st1, c2, st12, ps, d, b, v1, v2, Seq::empty());
        if let Ok((vals, ops, st2)) = sp_chain(c, st1, ps, d, b, v1, Seq::empty()) {
            let w = sp_chain(c2, st12, ps, d, b, v2, Seq::empty())->Ok_0.0; let st22 = sp_chain(c2, st12, ps, d, b, v2, Seq::empty())->Ok_0.2;
            if sp_value_end(c, st2.p, b) is Ok {
                bl_value_end(c, st2.p, c2, st22.p, b);
                assert(vals[0].0 == w[0].0);
                assert forall|i: int| 0 <= i < vals.skip(1).len() implies (#[trigger] vals.skip(1)[i]).0 == w.skip(1)[i].0 by { assert(vals[i + 1].0 == w[i + 1].0); }
                bl_fold(c, c2, vals[0].0, vals.skip(1), w.skip(1), ops);
            }
        }
    } }
}
proof fn bl_chain(c: Cx, st: St, c2: Cx, s2: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, x: Seq<(V, int, int)>, y: Seq<(V, int, int)>, ops: Seq<BinaryOp>) requires peer(c, c2), here(c, st, c2, s2), simt(x, y), x.len() > 0
    ensures sp_chain(c, st, ps, d, b, x, ops) matches Ok((r, o, s)) ==> r.len() > 0 && (sp_chain(c2, s2, ps, d, b, y, ops) matches Ok((r2, o2, s3)) && simt(r, r2) && o2 == o && here(c, s, c2, s3) && s2.p <= s3.p)
    decreases 70 - d, 0int, c.s.len() - st.p, 2int
{
    unfold_sp_chain(c, st, ps, d, b, x, ops); unfold_sp_chain(c2, s2, ps, d, b, y, ops);
    let s = c.s; let t = c2.s;
    if 0 <= s2.p < t.len() && op_of(t[s2.p]) is Some { axiom_ascii(t[s2.p]); lemma_fc(t[s2.p], true); al_char(t, s2.p, s, st.p); }
    if let Some(ch) = at(s, st.p) { if let Some(op) = op_of(ch) {
        lemma_fc(ch, true); al_char(s, st.p, t, s2.p);
        let q = st.p + 1; let q2 = s2.p + 1;
        if q < s.len() {
            let s1 = St { p: q, ..st }; let s12 = St { p: q2, ..s2 };
            bl_prim(c, s1, c2, s12, ps, d, b);
            if let Ok((v2, st2)) = sp_prim(c, s1, ps, d, b) { if q < st2.p <= s.len() {
                let st22 = sp_prim(c2, s12, ps, d, b)->Ok_0.1;
                assert(x.last().0 == y.last().0);
                if op is Mult || op is Div || op is Mod {
                    bl_bin(c, c2, x.last().0, v2, op, ln(s, q), cl(s, q), ln(t, q2), cl(t, q2));
                    if let Ok(w) = sp_bin(c, x.last().0, v2, op, ln(s, q), cl(s, q)) {
                        let x2 = x.drop_last().push((w, x.last().1, x.last().2)); let y2 = y.drop_last().push((w, y.last().1, y.last().2));
                        assert forall|i: int| 0 <= i < x2.len() implies (#[trigger] x2[i]).0 == y2[i].0 by { assert(x[i].0 == y[i].0); }
                        bl_chain(c, st2, c2, st22, ps, d, b, x2, y2, ops);
                    }
                } else {
                    let x2 = x.push((v2, ln(s, q), cl(s, q))); let y2 = y.push((v2, ln(t, q2), cl(t, q2)));
                    assert forall|i: int| 0 <= i < x2.len() implies (#[trigger] x2[i]).0 == y2[i].0 by { if i < x.len() { assert(x[i].0 == y[i].0); } }
                    bl_chain(c, st2, c2, st22, ps, d, b, x2, y2, ops.push(op));
                }
            } }
        }
    } }
}
proof fn bl_prim(c: Cx, st: St, c2: Cx, s2: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>) requires peer(c, c2), here(c, st, c2, s2)
    ensures simv(c, c2, s2.p, sp_prim(c, st, ps, d, b), sp_prim(c2, s2, ps, d, b))
    decreases 70 - d, 0int, c.s.len() - st.p, 1int
{
    if sp_prim(c, st, ps, d, b) is Ok {
        bl_noblank(c, st, ps, d, b);
        unfold_sp_prim(c, st, ps, d, b); unfold_sp_prim(c2, s2, ps, d, b);
        let ch = c.s[st.p];
        if ch == '"' { al_str(c, st.p, c2, s2.p); }
        else {
            al_char(c.s, st.p, c2.s, s2.p);
            if ch == '{' { bl_obj(c, st, c2, s2, d + 1); } else if ch == '[' { bl_arr(c, st, c2, s2, ps, d + 1); } else if ch == '(' { bl_tup(c, st, c2, s2, ps, d + 1); }
            else if ch == '<' { bl_include(c, st, c2, s2, ps, d + 1); } else if ch == '+' { bl_unary(c, st, c2, s2, ps, d, b, UnaryOp::Plus); } else if ch == '-' { bl_unary(c, st, c2, s2, ps, d, b, UnaryOp::Minus); }
            else if is_digit_c(ch) || ch == '.' || ch == ',' { bl_num(c.s, st.p, c2.s, s2.p, Seq::empty(), Seq::empty(), false, false); }
            else { bl_variable(c, st, c2, s2, ps, d, b, false); }
        }
    }
}
proof fn bl_unary(c: Cx, st: St, c2: Cx, s2: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, op: UnaryOp) requires peer(c, c2), here(c, st, c2, s2), st.p < c.s.len(), op_char(c.s[st.p])
    ensures simv(c, c2, s2.p, sp_unary(c, st, ps, d, b, op), sp_unary(c2, s2, ps, d, b, op))
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_unary(c, st, ps, d, b, op); unfold_sp_unary(c2, s2, ps, d, b, op);
    lemma_fc(c.s[st.p], true); al_char(c.s, st.p, c2.s, s2.p);
    if d <= 64 && st.p + 1 < c.s.len() { bl_prim(c, St { p: st.p + 1, ..st }, c2, St { p: s2.p + 1, ..s2 }, ps, d + 1, b); }
}
proof fn bl_variable(c: Cx, st: St, c2: Cx, s2: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, ad: bool) requires peer(c, c2), here(c, st, c2, s2), startv(c.s, st.p)
    ensures simv(c, c2, s2.p, sp_var(c, st, ps, d, b, ad), sp_var(c2, s2, ps, d, b, ad))
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_var(c, st, ps, d, b, ad); unfold_sp_var(c2, s2, ps, d, b, ad);
    if d <= 64 {
        let s = c.s; let t = c2.s;
        lemma_fc(s[st.p], true); al_char(s, st.p, t, s2.p);
        let glob = at(s, st.p) == Some('@');
        if glob { bl_var(s, st.p + 1, t, s2.p + 1, seq!['@']); } else { bl_var(s, st.p, t, s2.p, Seq::empty()); }
        if let VarScan::Done(name, q, dot, dotg) = (if glob { var_scan(s, st.p + 1, seq!['@']) } else { var_scan(s, st.p, Seq::empty()) }) {
            let q2 = (if glob { var_scan(t, s2.p + 1, seq!['@']) } else { var_scan(t, s2.p, Seq::empty()) })->Done_1;
            if let Ok(v) = sp_lookup(c, st.g, ps, name, glob, ln(s, st.p), cl(s, st.p), b, ad) {
                assert(sp_lookup(c2, s2.g, ps, name, glob, ln(t, s2.p), cl(t, s2.p), b, ad) == Ok::<V, PErr>(v));
                if dot {
                    match v {
                        V::Arr(_, _) => bl_prim(c, St { p: q, ..st }, c2, St { p: q2, ..s2 }, ps, d + 1, b),
                        V::Tup(_, _) => bl_prim(c, St { p: q, ..st }, c2, St { p: q2, ..s2 }, ps, d + 1, b),
                        V::Obj(o) => if !dotg { bl_variable(c, St { p: q, ..st }, c2, St { p: q2, ..s2 }, all_pairs(o), d + 1, b, true); },
                        _ => { }
                    }
                }
            }
        }
    }
}
proof fn bl_obj(c: Cx, st: St, c2: Cx, s2: St, d: int) requires peer(c, c2), here(c, st, c2, s2), st.p < c.s.len(), c.s[st.p] == '{'
    ensures simv(c, c2, s2.p, sp_obj(c, st, d), sp_obj(c2, s2, d))
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_obj(c, st, d); unfold_sp_obj(c2, s2, d);
    let q = skip(c.s, st.p + 1); let q2 = skip(c2.s, s2.p + 1);
    if d <= 64 && st.p < q < c.s.len() {
        lemma_opens('{'); al_char(c.s, st.p, c2.s, s2.p); lemma_skip_at(c2.s, s2.p + 1); lemma_head(c.s, q); lemma_head(c2.s, q2);
        bl_fields(c, St { p: q, ..st }, c2, St { p: q2, ..s2 }, Seq::empty(), None, d, Some('}'));
    }
}
proof fn bl_fields(c: Cx, st: St, c2: Cx, s2: St, ps: Seq<(Seq<char>, V)>, par: Option<O>, d: int, b: Option<char>)
    requires peer(c, c2), here(c, st, c2, s2), nonblank(c.s, st.p), nonblank(c2.s, s2.p), b is None || b == Some('}')
    ensures sp_fields(c, st, ps, par, d, b) matches Ok((o, s)) ==> (sp_fields(c2, s2, ps, par, d, b) matches Ok((o2, s3)) && o2 == o && here(c, s, c2, s3) && s2.p < s3.p)
    decreases 70 - d, 0int, c.s.len() - st.p, 5int
{
    unfold_sp_fields(c, st, ps, par, d, b); unfold_sp_fields(c2, s2, ps, par, d, b); bl_pair(c, st, c2, s2, ps, par, d, b);
    if let Ok((more, ps2, par2, st2)) = sp_pair(c, st, ps, par, d, b) {
        if more && st.p < st2.p <= c.s.len() {
            if shut(c.s, st2.p, b) { unfold_sp_fields(c, st2, ps2, par2, d, b); unfold_sp_pair(c, st2, ps2, par2, d, b); }
            else { let st22 = sp_pair(c2, s2, ps, par, d, b)->Ok_0.3; bl_fields(c, st2, c2, st22, ps2, par2, d, b); }
        }
    }
}
/// A closing delimiter that is not the container's.
pub open spec fn shut(s: Seq<char>, p: int, b: Option<char>) -> bool { 0 <= p < s.len() && end_delim(s[p]) && Some(s[p]) != b }
proof fn bl_pair(c: Cx, st: St, c2: Cx, s2: St, ps: Seq<(Seq<char>, V)>, par: Option<O>, d: int, b: Option<char>)
    requires peer(c, c2), here(c, st, c2, s2), nonblank(c.s, st.p), nonblank(c2.s, s2.p), b is None || b == Some('}')
    ensures sp_pair(c, st, ps, par, d, b) matches Ok((more, x, y, s)) ==> (more && shut(c.s, s.p, b)) || (sp_pair(c2, s2, ps, par, d, b) matches Ok((m2, x2, y2, s3)) && m2 == more && x2 == x && y2 == y && here(c, s, c2, s3) && s2.p < s3.p && (more ==> nonblank(c.s, s.p) && nonblank(c2.s, s3.p)))
    decreases 70 - d, 0int, c.s.len() - st.p, 4int
{
    unfold_sp_pair(c, st, ps, par, d, b); unfold_sp_pair(c2, s2, ps, par, d, b);
    let s = c.s; let t = c2.s;
    if st.p < s.len() {
        lemma_head(s, st.p); lemma_head(t, s2.p);
        let ch = s[st.p];
        if ch == '}' && b is Some { axiom_ascii(ch); al_char(s, st.p, t, s2.p); }
        else if !end_delim(ch) {
            if t[s2.p] == '}' || end_delim(t[s2.p]) { axiom_ascii(t[s2.p]); }
            bl_field(c, st.p, c2, s2.p);
            if let Ok((name, fk, p1)) = sp_field(c, st.p) {
                let q = skip(s, p1);
                if st.p < q < s.len() {
                    let p12 = sp_field(c2, s2.p)->Ok_0.2; let q2 = skip(t, p12);
                    lemma_head(s, q); lemma_head(t, q2);
                    bl_full(c, St { p: q, ..st }, c2, St { p: q2, ..s2 }, ps, d, b);
                    if let Ok((v, st2)) = sp_full(c, St { p: q, ..st }, ps, d, b) {
                        if !wrong(s, st2.p, b) {
                            let st22 = sp_full(c2, St { p: q2, ..s2 }, ps, d, b)->Ok_0.1;
                            al_skip(s, st2.p, t, st22.p); lemma_head(s, skip(s, st2.p)); lemma_head(t, skip(t, st22.p));
                        }
                    }
                }
            }
        }
    }
}
proof fn bl_elems(c: Cx, st: St, c2: Cx, s2: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, vs: Seq<V>, ty: Option<T>)
    requires peer(c, c2), 0 <= st.p <= c.s.len(), 0 <= s2.p <= c2.s.len(), al(c.s, skip(c.s, st.p), c2.s, skip(c2.s, s2.p)), s2.g == st.g, s2.inc == st.inc, b is None || b == Some(']') || b == Some(')')
    ensures sp_elems(c, st, ps, d, b, vs, ty) matches Ok((r, u, s)) ==> (sp_elems(c2, s2, ps, d, b, vs, ty) matches Ok((r2, u2, s3)) && r2 == r && u2 == u && here(c, s, c2, s3) && s2.p <= s3.p)
    decreases 70 - d, 0int, c.s.len() - st.p, 5int
{
    unfold_sp_elems(c, st, ps, d, b, vs, ty); unfold_sp_elems(c2, s2, ps, d, b, vs, ty);
    let s = c.s; let t = c2.s;
    let q = skip(s, st.p); let q2 = skip(t, s2.p);
    lemma_strip(s, st.p); lemma_strip(t, s2.p); lemma_skip_at(s, st.p); lemma_skip_at(t, s2.p);
    lemma_head(s, q); lemma_head(t, q2);
    if st.p <= q < s.len() {
        let ch = s[q];
        if b is Some && end_delim(t[q2]) { axiom_ascii(t[q2]); lemma_opens('"'); }
        if b is Some && ch == b->Some_0 {
            axiom_ascii(ch); al_char(s, q, t, q2);
        }
        else if !(b is Some && end_delim(ch)) {
            let s1 = St { p: q, ..st }; let s12 = St { p: q2, ..s2 };
            bl_full(c, s1, c2, s12, ps, d, b);
            if let Ok((v, st2)) = sp_full(c, s1, ps, d, b) { if q < st2.p <= s.len() {
                if wrong(s, st2.p, b) {
                    let k = skip(s, st2.p); lemma_skip_at(s, st2.p);
                    bl_delim(c, St { p: k, ..st2 }, ps, d, b);
                    match ty { None => unfold_sp_elems(c, st2, ps, d, b, vs.push(v), ty), Some(u) => if let Some(w) = msp(u, vtype(v)) { unfold_sp_elems(c, st2, ps, d, b, vs.push(v), Some(w)); } }
                } else {
                    let st22 = sp_full(c2, s12, ps, d, b)->Ok_0.1;
                    al_skip(s, st2.p, t, st22.p);
                    match ty { None => bl_elems(c, st2, c2, st22, ps, d, b, vs.push(v), ty), Some(u) => if let Some(w) = msp(u, vtype(v)) { bl_elems(c, st2, c2, st22, ps, d, b, vs.push(v), Some(w)); } }
                }
            } }
        }
    }
}
proof fn bl_arr(c: Cx, st: St, c2: Cx, s2: St, ps: Seq<(Seq<char>, V)>, d: int) requires peer(c, c2), here(c, st, c2, s2), st.p < c.s.len(), c.s[st.p] == '['
    ensures simv(c, c2, s2.p, sp_arr(c, st, ps, d), sp_arr(c2, s2, ps, d))
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_arr(c, st, ps, d); unfold_sp_arr(c2, s2, ps, d);
    lemma_opens('['); al_char(c.s, st.p, c2.s, s2.p);
    if d <= 64 { bl_elems(c, St { p: st.p + 1, ..st }, c2, St { p: s2.p + 1, ..s2 }, ps, d, Some(']'), Seq::empty(), Some(T::Any)); }
}
proof fn bl_tup(c: Cx, st: St, c2: Cx, s2: St, ps: Seq<(Seq<char>, V)>, d: int) requires peer(c, c2), here(c, st, c2, s2), st.p < c.s.len(), c.s[st.p] == '('
    ensures simv(c, c2, s2.p, sp_tup(c, st, ps, d), sp_tup(c2, s2, ps, d))
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_tup(c, st, ps, d); unfold_sp_tup(c2, s2, ps, d);
    lemma_opens('('); al_char(c.s, st.p, c2.s, s2.p);
    if d <= 64 { bl_elems(c, St { p: st.p + 1, ..st }, c2, St { p: s2.p + 1, ..s2 }, ps, d, Some(')'), Seq::empty(), None); }
}
proof fn bl_inc_close(c: Cx, st: St, c2: Cx, s2: St, ik: IK, v: V, d: int, p: int, p2: int) requires peer(c, c2), here(c, st, c2, s2)
    ensures simv(c, c2, s2.p, sp_inc_close(c, st, ik, v, d, p), sp_inc_close(c2, s2, ik, v, d, p2))
{
    unfold_sp_inc_close(c, st, ik, v, d, p); unfold_sp_inc_close(c2, s2, ik, v, d, p2);
    let s = c.s; let t = c2.s;
    let q = skip(s, st.p); let q2 = skip(t, s2.p);
    al_skip(s, st.p, t, s2.p); lemma_head(s, q); lemma_head(t, q2);
    if q < s.len() && s[q] == '>' {
        axiom_ascii('>'); al_char(s, q, t, q2);
        if let V::Str(x) = v {
            let a = St { p: q + 1, ..st }; let b = St { p: q2 + 1, ..s2 };
            unfold_sp_resolve(c, a, ik, x, d, ln(s, p), cl(s, p)); unfold_sp_resolve(c2, b, ik, x, d, ln(t, p2), cl(t, p2));
        }
    }
}
proof fn bl_include(c: Cx, st: St, c2: Cx, s2: St, ps: Seq<(Seq<char>, V)>, d: int) requires peer(c, c2), here(c, st, c2, s2), st.p < c.s.len(), c.s[st.p] == '<'
    ensures simv(c, c2, s2.p, sp_include(c, st, ps, d), sp_include(c2, s2, ps, d))
    decreases 70 - d, 4int, c.s.len() - st.p, 0int
{
    unfold_sp_include(c, st, ps, d); unfold_sp_include(c2, s2, ps, d);
    let s = c.s; let t = c2.s;
    let q = skip(s, st.p + 1); let q2 = skip(t, s2.p + 1);
    if d <= 64 && st.p < q < s.len() {
        lemma_opens('<'); al_char(s, st.p, t, s2.p); lemma_skip_at(t, s2.p + 1); lemma_head(s, q); lemma_head(t, q2);
        let a = St { p: q, ..st }; let a2 = St { p: q2, ..s2 };
        bl_full(c, a, c2, a2, ps, d, Some('>'));
        if let Ok((v, st1)) = sp_full(c, a, ps, d, Some('>')) {
            let q1 = skip(s, st1.p);
            if wrong(s, st1.p, Some('>')) {
                lemma_skip_gen(s, st1.p);
                if v is Str { unfold_sp_inc_close(c, st1, IK::Obj, v, d, q); } else { bl_delim(c, St { p: q1, ..st1 }, ps, d, Some('>')); }
            } else {
                let st12 = sp_full(c2, a2, ps, d, Some('>'))->Ok_0.1;
                if v is Str { bl_inc_close(c, st1, c2, st12, IK::Obj, v, d, q, q2); }
                else if let Some(ik) = inc_kind(v) {
                    let q12 = skip(t, st12.p);
                    al_skip(s, st1.p, t, st12.p); lemma_head(s, q1); lemma_head(t, q12);
                    if st.p < q1 < s.len() {
                        let e = St { p: q1, ..st1 }; let e2 = St { p: q12, ..st12 };
                        bl_full(c, e, c2, e2, ps, d, Some('>'));
                        if let Ok((w, st2)) = sp_full(c, e, ps, d, Some('>')) {
                            if wrong(s, st2.p, Some('>')) { unfold_sp_inc_close(c, st2, ik, w, d, q1); }
                            else { let st22 = sp_full(c2, e2, ps, d, Some('>'))->Ok_0.1; bl_inc_close(c, st2, c2, st22, ik, w, d, q1, q12); }
                        }
                    }
                }
            }
        }
    }
}
proof fn lemma_skip_gen(s: Seq<char>, p: int) ensures skip(s, p) <= s.len() { if 0 <= p < s.len() { lemma_skip_at(s, p); } }
proof fn bl_doc(c: Cx, c2: Cx, inc: Map<(IK, Seq<char>), V>, d: int) requires peer(c, c2), norm_text(c.s) == norm_text(c2.s)
    ensures sp_doc(c, inc, d) matches Ok(r) ==> sp_doc(c2, inc, d) == Ok::<(O, Map<(IK, Seq<char>), V>), PErr>(r)
{
    unfold_sp_doc(c, inc, d); unfold_sp_doc(c2, inc, d);
    let q = skip(c.s, 0); let q2 = skip(c2.s, 0);
    lemma_strip(c.s, 0); lemma_strip(c2.s, 0); lemma_head(c.s, q); lemma_head(c2.s, q2);
    if q < c.s.len() { bl_fields(c, St { p: q, g: Map::empty(), inc }, c2, St { p: q2, g: Map::empty(), inc }, Seq::empty(), None, d, None); }
}
/// C13: two texts with the same normal form denote the same object, or both denote none.
pub proof fn th_blanks(s: Seq<char>, t: Seq<char>) requires norm_text(s) == norm_text(t)
    ensures sp_text(s) is Ok == sp_text(t) is Ok, sp_text(s) matches Ok(o) ==> sp_text(t) == Ok::<O, PErr>(o)
{
    let c = Cx { s, file: None, cyc: Set::empty() }; let c2 = Cx { s: t, file: None, cyc: Set::empty() };
    bl_doc(c, c2, Map::empty(), 1); bl_doc(c2, c, Map::empty(), 1);
}
