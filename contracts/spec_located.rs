// ------------------------------------------------------------------ where an error is (C15)
/// Line and column are those of position p of the text; where a character is named, it is the one that stands there.
pub open spec fn at_here(k: K, s: Seq<char>, p: int) -> bool {
    0 <= p <= s.len() && match k {
        K::BinOp(_, _, _, l, co) => l == ln(s, p) && co == cl(s, p), K::Cyclic(_, l, co) => l == ln(s, p) && co == cl(s, p),
        K::DupField(_, l, co) => l == ln(s, p) && co == cl(s, p), K::DupGlobal(_, l, co) => l == ln(s, p) && co == cl(s, p),
        K::Expected(_, _, l, co) => l == ln(s, p) && co == cl(s, p), K::NoGlobal(_, l, co) => l == ln(s, p) && co == cl(s, p),
        K::BadIndex(_, l, co) => l == ln(s, p) && co == cl(s, p), K::Closing(_, ch, l, co) => l == ln(s, p) && co == cl(s, p) && at(s, p) == Some(ch),
        K::BadDot(_, l, co) => l == ln(s, p) && co == cl(s, p), K::BadEscape(ch, l, co) => l == ln(s, p) && co == cl(s, p) && at(s, p) == Some(ch),
        K::FieldChar(ch, l, co) => l == ln(s, p) && co == cl(s, p) && at(s, p) == Some(ch), K::FieldName(_, l, co) => l == ln(s, p) && co == cl(s, p),
        K::IncPath(_, l, co) => l == ln(s, p) && co == cl(s, p), K::IncToken(_, l, co) => l == ln(s, p) && co == cl(s, p),
        K::Numeric(l, co) => l == ln(s, p) && co == cl(s, p), K::BadValue(_, l, co) => l == ln(s, p) && co == cl(s, p),
        K::ValueChar(ch, l, co) => l == ln(s, p) && co == cl(s, p) && at(s, p) == Some(ch), K::MaxDepth(l, co) => l == ln(s, p) && co == cl(s, p),
        K::UnOp(_, _, l, co) => l == ln(s, p) && co == cl(s, p), K::NoVar(_, l, co) => l == ln(s, p) && co == cl(s, p),
        K::End(l) => p == s.len() && l == ln(s, p),
        K::Over(m) => exists|t: Seq<char>| m == #[trigger] over_at(t, ln(s, p), cl(s, p)),
        K::Io(_) => false, K::ParseInt(_) => false, K::Other => false,
    }
}
pub open spec fn at_pos(k: K, s: Seq<char>) -> bool { exists|p: int| #[trigger] at_here(k, s, p) }
/// The error is about a place in the text being read, or about a place in the file it names, or about a file that cannot be read.
pub open spec fn located(e: PErr, c: Cx) -> bool {
    (e.kind matches K::Io(m) && e.file is None && exists|f: Seq<char>| #[trigger] fs_read(f) == Err::<Seq<char>, Seq<char>>(m))
    || (e.file == c.file && at_pos(e.kind, c.s))
    || (e.file matches Some(f) && fs_read(f) matches Ok(s) && at_pos(e.kind, s))
}
pub open spec fn found_at(s: Seq<char>, l: int, co: int) -> bool { exists|p: int| 0 <= p <= s.len() && l == #[trigger] ln(s, p) && co == cl(s, p) }
spec fn all_found(s: Seq<char>, vals: Seq<(V, int, int)>) -> bool { forall|i: int| 0 <= i < vals.len() ==> found_at(s, (#[trigger] vals[i]).1, vals[i].2) }
proof fn lemma_here(c: Cx, k: K, p: int) requires at_here(k, c.s, p) ensures located(PErr { file: c.file, kind: k }, c) { }
proof fn lemma_bin_loc(c: Cx, a: V, b: V, op: BinaryOp, l: int, co: int) requires found_at(c.s, l, co) ensures sp_bin(c, a, b, op, l, co) matches Err(e) ==> located(e, c)
{
    let p = choose|p: int| 0 <= p <= c.s.len() && l == #[trigger] ln(c.s, p) && co == cl(c.s, p);
    if let Err(e) = sp_bin(c, a, b, op, l, co) { assert(at_here(e.kind, c.s, p)); }
}
proof fn lemma_un_loc(c: Cx, a: V, op: UnaryOp, p: int) requires 0 <= p <= c.s.len() ensures sp_un(c, a, op, ln(c.s, p), cl(c.s, p)) matches Err(e) ==> located(e, c)
{ if let Err(e) = sp_un(c, a, op, ln(c.s, p), cl(c.s, p)) { assert(at_here(e.kind, c.s, p)); } }
proof fn lemma_fold_loc(c: Cx, a: V, vals: Seq<(V, int, int)>, ops: Seq<BinaryOp>) requires all_found(c.s, vals) ensures sp_fold(c, a, vals, ops) matches Err(e) ==> located(e, c) decreases ops.len()
{
    if ops.len() > 0 && vals.len() > 0 {
        assert(found_at(c.s, vals[0].1, vals[0].2));
        lemma_bin_loc(c, a, vals[0].0, ops[0], vals[0].1, vals[0].2);
        if let Ok(v) = sp_bin(c, a, vals[0].0, ops[0], vals[0].1, vals[0].2) { assert forall|i: int| 0 <= i < vals.skip(1).len() implies found_at(c.s, (#[trigger] vals.skip(1)[i]).1, vals.skip(1)[i].2) by { assert(vals.skip(1)[i] == vals[i + 1]); } lemma_fold_loc(c, v, vals.skip(1), ops.skip(1)); }
    }
}
proof fn lemma_field_scan_loc(s: Seq<char>, p: int, acc: Seq<char>, first: bool) requires 0 <= p <= s.len()
    ensures ({ let r = field_scan(s, p, acc, first); p <= r.1 <= s.len() && (!r.2 ==> r.1 < s.len()) }) decreases s.len() - p
{ if p < s.len() && !(s[p] == ':' && !first) && field_char(s[p], first) { lemma_field_scan_loc(s, p + 1, acc.push(s[p]), false); } }
proof fn lemma_field_loc(c: Cx, p: int) requires 0 <= p < c.s.len() ensures sp_field(c, p) matches Err(e) ==> located(e, c), sp_field(c, p) matches Ok((_, _, q)) ==> p <= q <= c.s.len()
{
    lemma_field_scan_loc(c.s, p + 1, seq!['@'], true); lemma_field_scan_loc(c.s, p, Seq::empty(), true);
    if let Err(e) = sp_field(c, p) {
        let glob = at(c.s, p) == Some('@');
        let (name, q, ok) = if glob { field_scan(c.s, p + 1, seq!['@'], true) } else { field_scan(c.s, p, Seq::empty(), true) };
        if !ok { assert(at_here(e.kind, c.s, q)); } else { assert(at_here(e.kind, c.s, p)); }
    }
}
proof fn lemma_num_scan_loc(s: Seq<char>, p: int, a: Seq<char>, b: Seq<char>, dec: bool, under: bool) requires 0 <= p <= s.len()
    ensures match num_scan(s, p, a, b, dec, under) { NumScan::Bad(q) => p <= q < s.len(), NumScan::Done(_, _, _, q) => p <= q <= s.len() && (p < s.len() && !value_end(s[p]) ==> p < q) } decreases s.len() - p
{
    if p < s.len() && !value_end(s[p]) {
        if is_digit_c(s[p]) { if dec { lemma_num_scan_loc(s, p + 1, a, b.push(s[p]), dec, false); } else { lemma_num_scan_loc(s, p + 1, a.push(s[p]), b, dec, false); } }
        else if s[p] == '.' || s[p] == ',' { if !dec { lemma_num_scan_loc(s, p + 1, a, b, true, false); } }
        else if s[p] == '_' { if !under { lemma_num_scan_loc(s, p + 1, a, b, dec, true); } }
    }
}
proof fn lemma_num_loc(c: Cx, p: int) requires 0 <= p < c.s.len(), is_digit_c(c.s[p]) || c.s[p] == '.' || c.s[p] == ',' ensures sp_num(c, p) matches Err(e) ==> located(e, c), sp_num(c, p) matches Ok((_, q)) ==> p < q <= c.s.len()
{
    lemma_num_scan_loc(c.s, p, Seq::empty(), Seq::empty(), false, false);
    if let Err(e) = sp_num(c, p) { match num_scan(c.s, p, Seq::empty(), Seq::empty(), false, false) { NumScan::Bad(q) => { assert(at_here(e.kind, c.s, q)); } _ => { assert(at_here(e.kind, c.s, p)); } } }
}
proof fn lemma_str_scan_loc(s: Seq<char>, p: int, acc: Seq<char>, e: bool) requires 0 <= p <= s.len()
    ensures match str_scan(s, p, acc, e) { StrScan::Bad(q) => p <= q < s.len(), StrScan::Done(_, q) => p < q <= s.len(), StrScan::End => true } decreases s.len() - p
{
    if p < s.len() {
        if e { if let Some(ch) = unesc(s[p]) { lemma_str_scan_loc(s, p + 1, acc.push(ch), false); } }
        else if s[p] == '"' { } else if s[p] == '\\' { lemma_str_scan_loc(s, p + 1, acc, true); } else { lemma_str_scan_loc(s, p + 1, acc.push(s[p]), false); }
    }
}
proof fn lemma_str_loc(c: Cx, p: int) requires 0 <= p < c.s.len() ensures sp_str(c, p) matches Err(e) ==> located(e, c), sp_str(c, p) matches Ok((_, q)) ==> p < q <= c.s.len()
{
    lemma_str_scan_loc(c.s, p + 1, Seq::empty(), false);
    if let Err(e) = sp_str(c, p) { match str_scan(c.s, p + 1, Seq::empty(), false) { StrScan::Bad(q) => { assert(at_here(e.kind, c.s, q)); } _ => { assert(at_here(e.kind, c.s, c.s.len() as int)); } } }
}
proof fn lemma_var_scan_loc(s: Seq<char>, p: int, acc: Seq<char>) requires 0 <= p <= s.len()
    ensures match var_scan(s, p, acc) {
        VarScan::Bad(q) => p <= q < s.len(), VarScan::End(q) => q == s.len(),
        VarScan::Done(_, q, dot, dg) => p <= q <= s.len() && (p < s.len() && !value_end(s[p]) ==> p < q) && (dot ==> p < q < s.len() && (if dg { s[q] == '@' } else { var_start(s[q]) })),
    } decreases s.len() - p
{ if p < s.len() && s[p] != '.' && !value_end(s[p]) && field_char(s[p], false) { lemma_var_scan_loc(s, p + 1, acc.push(s[p])); } }
spec fn var_start(n: char) -> bool { field_char(n, true) || is_digit_c(n) || n == '.' || n == ',' }
proof fn lemma_end_loc(c: Cx, p: int, b: Option<char>) requires 0 <= p <= c.s.len() ensures sp_value_end(c, p, b) matches Err(e) ==> located(e, c)
{ if let Err(e) = sp_value_end(c, p, b) { assert(at_here(e.kind, c.s, p)); } }
spec fn ok_st(c: Cx, st: St) -> bool { 0 <= st.p < c.s.len() }

proof fn l_full(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>) requires ok_st(c, st), d <= 65
    ensures match sp_full(c, st, ps, d, b) { Ok((v, s2)) => st.p < s2.p <= c.s.len(), Err(e) => located(e, c) }
    decreases 70 - d, 0int, c.s.len() - st.p, 3int
{
    unfold_sp_full(c, st, ps, d, b); l_prim(c, st, ps, d, b);
    if let Ok((v, st1)) = sp_prim(c, st, ps, d, b) {
        let a = (v, ln(c.s, st.p), cl(c.s, st.p));
        assert(all_found(c.s, seq![a])) by { assert(found_at(c.s, a.1, a.2)); }
        l_chain(c, st1, ps, d, b, seq![a], Seq::empty());
        if let Ok((vals, ops, st2)) = sp_chain(c, st1, ps, d, b, seq![a], Seq::empty()) {
            lemma_end_loc(c, st2.p, b);
            assert(all_found(c.s, vals.skip(1))) by { assert forall|i: int| 0 <= i < vals.skip(1).len() implies found_at(c.s, (#[trigger] vals.skip(1)[i]).1, vals.skip(1)[i].2) by { assert(vals.skip(1)[i] == vals[i + 1]); } }
            lemma_fold_loc(c, vals[0].0, vals.skip(1), ops);
        }
    }
}
proof fn l_chain(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, vals: Seq<(V, int, int)>, ops: Seq<BinaryOp>) requires 0 <= st.p <= c.s.len(), d <= 65, all_found(c.s, vals), vals.len() > 0
    ensures match sp_chain(c, st, ps, d, b, vals, ops) { Ok((v2, _, s2)) => st.p <= s2.p <= c.s.len() && all_found(c.s, v2) && v2.len() > 0, Err(e) => located(e, c) }
    decreases 70 - d, 0int, c.s.len() - st.p, 2int
{
    unfold_sp_chain(c, st, ps, d, b, vals, ops);
    if let Some(ch) = at(c.s, st.p) { if let Some(op) = op_of(ch) {
        let q = st.p + 1;
        if q >= c.s.len() { assert(at_here(K::End(ln(c.s, q)), c.s, q)); }
        else {
            let s1 = St { p: q, ..st };
            l_prim(c, s1, ps, d, b);
            if let Ok((v2, st2)) = sp_prim(c, s1, ps, d, b) {
                assert(found_at(c.s, ln(c.s, q), cl(c.s, q)));
                if op is Mult || op is Div || op is Mod {
                    lemma_bin_loc(c, vals.last().0, v2, op, ln(c.s, q), cl(c.s, q));
                    if let Ok(w) = sp_bin(c, vals.last().0, v2, op, ln(c.s, q), cl(c.s, q)) {
                        let y = vals.drop_last().push((w, vals.last().1, vals.last().2));
                        assert(all_found(c.s, y)) by { assert forall|i: int| 0 <= i < y.len() implies found_at(c.s, (#[trigger] y[i]).1, y[i].2) by { assert(found_at(c.s, vals[i].1, vals[i].2)); } }
                        l_chain(c, st2, ps, d, b, y, ops);
                    }
                } else { l_chain(c, st2, ps, d, b, vals.push((v2, ln(c.s, q), cl(c.s, q))), ops.push(op)); }
            }
        }
    } }
}
proof fn l_prim(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>) requires ok_st(c, st), d <= 65
    ensures match sp_prim(c, st, ps, d, b) { Ok((v, s2)) => st.p < s2.p <= c.s.len(), Err(e) => located(e, c) }
    decreases 70 - d, 0int, c.s.len() - st.p, 1int
{
    unfold_sp_prim(c, st, ps, d, b);
    let ch = c.s[st.p];
    if ch == '"' { lemma_str_loc(c, st.p); } else if ch == '{' { l_obj(c, st, d + 1); } else if ch == '[' { l_arr(c, st, ps, d + 1); } else if ch == '(' { l_tup(c, st, ps, d + 1); }
    else if ch == '<' { l_include(c, st, ps, d + 1); } else if ch == '+' { l_unary(c, st, ps, d, b, UnaryOp::Plus); } else if ch == '-' { l_unary(c, st, ps, d, b, UnaryOp::Minus); }
    else if is_digit_c(ch) || ch == '.' || ch == ',' { lemma_num_loc(c, st.p); } else if field_char(ch, true) || ch == '@' { l_var(c, st, ps, d, b, false); }
    else { assert(at_here(K::ValueChar(ch, ln(c.s, st.p), cl(c.s, st.p)), c.s, st.p)); }
}
proof fn l_deep(c: Cx, p: int) requires 0 <= p <= c.s.len() ensures e_depth::<int>(c, p) matches Err(e) ==> located(e, c), located(PErr { file: c.file, kind: K::MaxDepth(ln(c.s, p), cl(c.s, p)) }, c)
{ assert(at_here(K::MaxDepth(ln(c.s, p), cl(c.s, p)), c.s, p)); }
proof fn l_end(c: Cx) ensures located(PErr { file: c.file, kind: K::End(ln(c.s, c.s.len() as int)) }, c) { assert(at_here(K::End(ln(c.s, c.s.len() as int)), c.s, c.s.len() as int)); }
proof fn l_unary(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, op: UnaryOp) requires ok_st(c, st), d <= 65
    ensures match sp_unary(c, st, ps, d, b, op) { Ok((v, s2)) => st.p < s2.p <= c.s.len(), Err(e) => located(e, c) }
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_unary(c, st, ps, d, b, op);
    l_deep(c, st.p); l_end(c);
    if d <= 64 && st.p + 1 < c.s.len() { let s1 = St { p: st.p + 1, ..st }; l_prim(c, s1, ps, d + 1, b); if let Ok((v, s2)) = sp_prim(c, s1, ps, d + 1, b) { lemma_un_loc(c, v, op, st.p + 1); } }
}
proof fn l_index(c: Cx, vs: Seq<V>, i: V, q: int, bounds: spec_fn(int) -> Seq<char>) requires 0 <= q <= c.s.len() ensures sp_index(c, vs, i, q, bounds) matches Err(e) ==> located(e, c)
{ if let Err(e) = sp_index(c, vs, i, q, bounds) { if let V::Int(k) = i { if 0 <= k <= usize::MAX { assert(e.kind == K::Over(over_at(bounds(k), ln(c.s, q), cl(c.s, q)))); } } assert(at_here(e.kind, c.s, q)); } }
proof fn l_var(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, ad: bool) requires ok_st(c, st), d <= 65, var_start(c.s[st.p]) || c.s[st.p] == '@'
    ensures match sp_var(c, st, ps, d, b, ad) { Ok((v, s2)) => st.p < s2.p <= c.s.len(), Err(e) => located(e, c) }
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_var(c, st, ps, d, b, ad);
    l_deep(c, st.p); l_end(c);
    if d <= 64 {
        let glob = at(c.s, st.p) == Some('@');
        lemma_var_scan_loc(c.s, st.p + 1, seq!['@']); lemma_var_scan_loc(c.s, st.p, Seq::empty());
        let sc = if glob { var_scan(c.s, st.p + 1, seq!['@']) } else { var_scan(c.s, st.p, Seq::empty()) };
        axiom_ascii(c.s[st.p]);
        match sc {
            VarScan::Bad(q) => { assert(at_here(K::ValueChar(c.s[q], ln(c.s, q), cl(c.s, q)), c.s, q)); }
            VarScan::End(q) => { }
            VarScan::Done(name, q, dot, dotg) => match sp_lookup(c, st.g, ps, name, glob, ln(c.s, st.p), cl(c.s, st.p), b, ad) {
                Err(e) => { assert(at_here(e.kind, c.s, st.p)); }
                Ok(v) => if dot {
                    let s1 = St { p: q, ..st };
                    match v {
                        V::Arr(vs, _) => { l_prim(c, s1, ps, d + 1, b); if let Ok((i, st2)) = sp_prim(c, s1, ps, d + 1, b) { l_index(c, vs, i, q, |k: int| m_arr_bounds(k)); } }
                        V::Tup(vs, _) => { l_prim(c, s1, ps, d + 1, b); if let Ok((i, st2)) = sp_prim(c, s1, ps, d + 1, b) { l_index(c, vs, i, q, |k: int| m_tup_bounds(k)); } }
                        V::Obj(o) => if dotg { assert(at_here(K::ValueChar('@', ln(c.s, q), cl(c.s, q)), c.s, q)); } else { l_var(c, s1, all_pairs(o), d + 1, b, true); },
                        _ => { assert(at_here(K::BadDot(vtype(v), ln(c.s, st.p), cl(c.s, st.p)), c.s, st.p)); }
                    }
                },
            },
        }
    }
}
proof fn l_obj(c: Cx, st: St, d: int) requires ok_st(c, st), d <= 66
    ensures match sp_obj(c, st, d) { Ok((v, s2)) => st.p < s2.p <= c.s.len(), Err(e) => located(e, c) }
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_obj(c, st, d);
    l_deep(c, st.p); l_end(c);
    let q = skip(c.s, st.p + 1);
    if d <= 64 && st.p < q < c.s.len() { l_fields(c, St { p: q, ..st }, Seq::empty(), None, d, Some('}')); }
}
proof fn l_fields(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, par: Option<O>, d: int, b: Option<char>) requires ok_st(c, st), d <= 64
    ensures match sp_fields(c, st, ps, par, d, b) { Ok((o, s2)) => st.p < s2.p <= c.s.len(), Err(e) => located(e, c) }
    decreases 70 - d, 0int, c.s.len() - st.p, 5int
{
    unfold_sp_fields(c, st, ps, par, d, b); l_pair(c, st, ps, par, d, b);
    if let Ok((more, ps2, par2, st2)) = sp_pair(c, st, ps, par, d, b) { if more { l_fields(c, st2, ps2, par2, d, b); } }
}
proof fn l_pair(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, par: Option<O>, d: int, b: Option<char>) requires ok_st(c, st), d <= 64
    ensures match sp_pair(c, st, ps, par, d, b) { Ok((more, _, _, s2)) => st.p < s2.p <= c.s.len() && (more ==> s2.p < c.s.len()), Err(e) => located(e, c) }
    decreases 70 - d, 0int, c.s.len() - st.p, 4int
{
    unfold_sp_pair(c, st, ps, par, d, b);
    l_end(c); lemma_field_loc(c, st.p);
    let ch = c.s[st.p];
    if ch == '}' && b is Some { }
    else if end_delim(ch) { assert(at_here(K::Closing(b, ch, ln(c.s, st.p), cl(c.s, st.p)), c.s, st.p)); }
    else if let Ok((name, fk, p1)) = sp_field(c, st.p) {
        assert(at_here(K::DupGlobal(name, ln(c.s, st.p), cl(c.s, st.p)), c.s, st.p));
        assert(at_here(K::DupField("^"@, ln(c.s, st.p), cl(c.s, st.p)), c.s, st.p));
        assert(at_here(K::DupField(name, ln(c.s, st.p), cl(c.s, st.p)), c.s, st.p));
        let q = skip(c.s, p1);
        lemma_skip_at(c.s, p1);
        if st.p < q < c.s.len() {
            l_full(c, St { p: q, ..st }, ps, d, b);
            if let Ok((v, st2)) = sp_full(c, St { p: q, ..st }, ps, d, b) {
                lemma_skip_at(c.s, st2.p);
                let m = m_mismatch(T::Obj, vtype(v));
                assert(at_here(K::Over(over_at(m, ln(c.s, q), cl(c.s, q))), c.s, q));
            }
        }
    }
}
proof fn l_elems(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, vs: Seq<V>, t: Option<T>) requires 0 <= st.p <= c.s.len(), d <= 64
    ensures match sp_elems(c, st, ps, d, b, vs, t) { Ok((_, _, s2)) => st.p <= s2.p <= c.s.len(), Err(e) => located(e, c) }
    decreases 70 - d, 0int, c.s.len() - st.p, 5int
{
    unfold_sp_elems(c, st, ps, d, b, vs, t);
    l_end(c);
    let q = skip(c.s, st.p);
    lemma_skip_at(c.s, st.p);
    if q < c.s.len() {
        if b is Some && c.s[q] == b->Some_0 { }
        else if b is Some && end_delim(c.s[q]) { assert(at_here(K::Closing(b, c.s[q], ln(c.s, q), cl(c.s, q)), c.s, q)); }
        else {
            l_full(c, St { p: q, ..st }, ps, d, b);
            if let Ok((v, st2)) = sp_full(c, St { p: q, ..st }, ps, d, b) {
                match t {
                    None => l_elems(c, st2, ps, d, b, vs.push(v), t),
                    Some(u) => match msp(u, vtype(v)) { Some(x) => l_elems(c, st2, ps, d, b, vs.push(v), Some(x)), None => { assert(at_here(K::Expected(u, vtype(v), ln(c.s, q), cl(c.s, q)), c.s, q)); } },
                }
            }
        }
    }
}
proof fn l_arr(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int) requires ok_st(c, st), d <= 66
    ensures match sp_arr(c, st, ps, d) { Ok((v, s2)) => st.p < s2.p <= c.s.len(), Err(e) => located(e, c) }
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_arr(c, st, ps, d);
    l_deep(c, st.p);
    if d <= 64 { l_elems(c, St { p: st.p + 1, ..st }, ps, d, Some(']'), Seq::empty(), Some(T::Any)); }
}
proof fn l_tup(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int) requires ok_st(c, st), d <= 66
    ensures match sp_tup(c, st, ps, d) { Ok((v, s2)) => st.p < s2.p <= c.s.len(), Err(e) => located(e, c) }
    decreases 70 - d, 0int, c.s.len() - st.p, 0int
{
    unfold_sp_tup(c, st, ps, d);
    l_deep(c, st.p);
    if d <= 64 { l_elems(c, St { p: st.p + 1, ..st }, ps, d, Some(')'), Seq::empty(), None); }
}
proof fn l_doc(c: Cx, inc: Map<(IK, Seq<char>), V>, d: int) requires d <= 64 ensures sp_doc(c, inc, d) matches Err(e) ==> located(e, c)
    decreases 70 - d, 0int, c.s.len(), 6int
{
    unfold_sp_doc(c, inc, d);
    let q = skip(c.s, 0);
    if 0 <= q < c.s.len() { l_fields(c, St { p: q, g: Map::empty(), inc }, Seq::empty(), None, d, None); }
}
proof fn l_seq_doc(c: Cx, inc: Map<(IK, Seq<char>), V>, d: int, t: Option<T>) requires d <= 64 ensures sp_seq_doc(c, inc, d, t) matches Err(e) ==> located(e, c)
    decreases 70 - d, 0int, c.s.len(), 6int
{
    unfold_sp_seq_doc(c, inc, d, t);
    l_elems(c, St { p: 0, g: Map::empty(), inc }, Seq::empty(), d, None, Seq::empty(), t);
}
/// An error inside an included file names that file (or one included from there).
proof fn l_load(ik: IK, path: Seq<char>, cyc: Set<Seq<char>>, inc: Map<(IK, Seq<char>), V>, d: int, c0: Cx) requires d <= 64 ensures sp_load(ik, path, cyc, inc, d) matches Err(e) ==> located(e, c0)
    decreases 70 - d, 1int, 0int, 0int
{
    unfold_sp_load(ik, path, cyc, inc, d);
    if let Ok(s) = fs_read(path) {
        let c = Cx { s, file: Some(path), cyc };
        match ik { IK::Str => { } IK::Obj => l_doc(c, inc, d), IK::Arr => l_seq_doc(c, inc, d, Some(T::Any)), IK::Tup => l_seq_doc(c, inc, d, None) }
    }
}
proof fn l_resolve(c: Cx, st: St, ik: IK, x: Seq<char>, d: int, p: int) requires d <= 64, 0 <= p <= c.s.len()
    ensures match sp_resolve(c, st, ik, x, d, ln(c.s, p), cl(c.s, p)) { Ok((v, s2)) => s2.p == st.p, Err(e) => located(e, c) }
    decreases 70 - d, 2int, 0int, 0int
{
    let l = ln(c.s, p); let co = cl(c.s, p);
    unfold_sp_resolve(c, st, ik, x, d, l, co);
    assert(at_here(K::IncPath(x, l, co), c.s, p)); assert(at_here(K::Cyclic(x, l, co), c.s, p));
    if let Some((path, full)) = inc_names(c.file, x) {
        let own = match c.file { Some(f) => own_name(f), None => None };
        let cyc = match own { Some(o) => c.cyc.insert(o), None => c.cyc };
        l_load(ik, path, cyc, st.inc, d, c);
    }
}
proof fn l_inc_close(c: Cx, st: St, ik: IK, v: V, d: int, p: int) requires d <= 64, 0 <= p <= c.s.len(), 0 <= st.p <= c.s.len()
    ensures match sp_inc_close(c, st, ik, v, d, p) { Ok((w, s2)) => st.p < s2.p <= c.s.len(), Err(e) => located(e, c) }
    decreases 70 - d, 3int, 0int, 0int
{
    unfold_sp_inc_close(c, st, ik, v, d, p);
    l_end(c);
    let q = skip(c.s, st.p);
    lemma_skip_at(c.s, st.p);
    if q < c.s.len() { assert(at_here(K::Closing(Some('>'), c.s[q], ln(c.s, q), cl(c.s, q)), c.s, q) || c.s[q] == '>'); }
    match v { V::Str(x) => l_resolve(c, St { p: q + 1, ..st }, ik, x, d, p), _ => { assert(at_here(K::Expected(T::Str, vtype(v), ln(c.s, p), cl(c.s, p)), c.s, p)); } }
}
proof fn l_include(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int) requires ok_st(c, st), d <= 66
    ensures match sp_include(c, st, ps, d) { Ok((v, s2)) => st.p < s2.p <= c.s.len(), Err(e) => located(e, c) }
    decreases 70 - d, 4int, c.s.len() - st.p, 0int
{
    unfold_sp_include(c, st, ps, d);
    l_deep(c, st.p); l_end(c);
    let q = skip(c.s, st.p + 1);
    if d <= 64 && st.p < q < c.s.len() {
        l_full(c, St { p: q, ..st }, ps, d, Some('>'));
        if let Ok((v, st1)) = sp_full(c, St { p: q, ..st }, ps, d, Some('>')) {
            if v is Str { l_inc_close(c, st1, IK::Obj, v, d, q); }
            else {
                assert(at_here(K::IncToken(vtype(v), ln(c.s, q), cl(c.s, q)), c.s, q));
                if let Some(ik) = inc_kind(v) {
                    let q1 = skip(c.s, st1.p);
                    lemma_skip_at(c.s, st1.p);
                    if st.p < q1 < c.s.len() {
                        l_full(c, St { p: q1, ..st1 }, ps, d, Some('>'));
                        if let Ok((w, st2)) = sp_full(c, St { p: q1, ..st1 }, ps, d, Some('>')) { l_inc_close(c, st2, ik, w, d, q1); }
                    }
                }
            }
        }
    }
}
/// C15: every error of a document given as text is about a place in that text, with its line and column there (and the character
/// standing there, where it names one), or names an included file and is about a place in that file's content, or is the
/// operating system's answer for a file that cannot be read.
pub proof fn th_located_text(s: Seq<char>) ensures sp_text(s) matches Err(e) ==> located(e, Cx { s, file: None, cyc: Set::empty() }), sp_text(s) matches Err(e) ==> e.file is None && !(e.kind is Io) ==> at_pos(e.kind, s)
{ l_doc(Cx { s, file: None, cyc: Set::empty() }, Map::empty(), 1); }
/// C15: every error of a document given as a file names a file whose content it is about (the file itself or an included one),
/// or is the operating system's answer for a file that cannot be read.
pub proof fn th_located_file(f: Seq<char>)
    ensures sp_file(f) matches Err(e) ==> match e.file { Some(g) => fs_read(g) matches Ok(s) && at_pos(e.kind, s), None => e.kind matches K::Io(m) && exists|g: Seq<char>| #[trigger] fs_read(g) == Err::<Seq<char>, Seq<char>>(m) }
{ if let Ok(s) = fs_read(f) { l_doc(Cx { s, file: Some(f), cyc: Set::empty() }, Map::empty(), 1); } }
