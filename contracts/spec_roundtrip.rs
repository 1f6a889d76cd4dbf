// ------------------------------------------------------------------ reading back what was written (C14, C07)
// The text of an object, read as a document, denotes that object.

/// x stands in s at p.
pub open spec fn seg(s: Seq<char>, p: int, x: Seq<char>) -> bool { 0 <= p && p + x.len() <= s.len() && s.subrange(p, p + x.len()) == x }
pub proof fn seg_at(s: Seq<char>, p: int, x: Seq<char>, i: int) requires seg(s, p, x), 0 <= i < x.len() ensures s[p + i] == x[i], 0 <= p + i < s.len() { assert(s.subrange(p, p + x.len())[i] == x[i]); }
pub proof fn seg_cat(s: Seq<char>, p: int, a: Seq<char>, b: Seq<char>) requires seg(s, p, a + b) ensures seg(s, p, a), seg(s, p + a.len(), b) {
    let t = s.subrange(p, p + (a + b).len());
    assert(s.subrange(p, p + a.len()) =~= t.subrange(0, a.len() as int)); assert(t.subrange(0, a.len() as int) =~= a);
    assert(s.subrange(p + a.len(), p + a.len() + b.len()) =~= t.subrange(a.len() as int, (a + b).len() as int)); assert(t.subrange(a.len() as int, (a + b).len() as int) =~= b);
}
pub proof fn seg_last(s: Seq<char>, p: int, x: Seq<char>) requires seg(s, p, x), x.len() > 0 ensures seg(s, p, x.drop_last()), s[p + x.len() - 1] == x.last() {
    seg_at(s, p, x, x.len() - 1);
    assert(s.subrange(p, p + x.len() - 1) =~= s.subrange(p, p + x.len()).drop_last());
}

// ---- strings
proof fn rt_esc(s: Seq<char>, p: int, x: Seq<char>, acc: Seq<char>) requires seg(s, p, esc(x)) ensures str_scan(s, p, acc, false) == str_scan(s, p + esc(x).len(), acc + x, false) decreases x.len() {
    if x.len() == 0 { assert(acc + x =~= acc); }
    else {
        let y = x.drop_last(); let c = x.last();
        seg_cat(s, p, esc(y), esc_c(c));
        rt_esc(s, p, y, acc);
        let q = p + esc(y).len();
        reveal_strlit("\\\\"); reveal_strlit("\\\""); reveal_strlit("\\'"); reveal_strlit("\\$"); reveal_strlit("\\n"); reveal_strlit("\\r"); reveal_strlit("\\t");
        seg_at(s, q, esc_c(c), 0);
        if esc_c(c).len() == 2 { seg_at(s, q, esc_c(c), 1); }
        reveal_with_fuel(str_scan, 3);
        assert((acc + y).push(c) =~= acc + x);
    }
}
/// C07: what the writer escapes, the reader decodes.
pub proof fn th_str_round_trip(c: Cx, p: int, x: Seq<char>) requires seg(c.s, p, fmt_s(x)) ensures sp_str(c, p) == Ok::<(V, int), PErr>((V::Str(x), p + fmt_s(x).len())) {
    reveal_strlit("\"");
    seg_cat(c.s, p, "\""@ + esc(x), "\""@); seg_cat(c.s, p, "\""@, esc(x));
    rt_esc(c.s, p + 1, x, Seq::empty());
    seg_at(c.s, p + 1 + esc(x).len(), "\""@, 0);
    assert(Seq::<char>::empty() + x =~= x);
}

// ---- numbers
proof fn lemma_dec_nat(n: nat) ensures dec_nat(n).len() > 0, all_digits(dec_nat(n)), digits_val(dec_nat(n)) == n decreases n {
    if n < 10 { assert(dec_nat(n).drop_last() =~= Seq::empty()); reveal_with_fuel(digits_val, 2); }
    else { lemma_dec_nat(n / 10); assert(dec_nat(n).drop_last() =~= dec_nat(n / 10)); }
}
proof fn lemma_digit_end(c: char) requires is_digit_c(c) ensures !value_end(c), c != '.', c != ',', c != '_', !is_ws(c), c != '#', !end_delim(c) { axiom_ascii(c); }
/// Digits are read one by one.
proof fn rt_digits(s: Seq<char>, p: int, x: Seq<char>, a: Seq<char>) requires seg(s, p, x), all_digits(x) ensures num_scan(s, p, a, Seq::empty(), false, false) == num_scan(s, p + x.len(), a + x, Seq::empty(), false, false) decreases x.len() {
    if x.len() == 0 { assert(a + x =~= a); }
    else {
        seg_last(s, p, x);
        rt_digits(s, p, x.drop_last(), a);
        lemma_digit_end(x.last()); assert(is_digit_c(x[x.len() - 1]));
        assert((a + x.drop_last()).push(x.last()) =~= a + x);
    }
}
/// Where a written value ends: at the end of its line or in front of the bracket around it.
pub open spec fn rt_ends(s: Seq<char>, q: int, b: Option<char>) -> bool { 0 <= q < s.len() && (s[q] == '\n' || (b is Some && s[q] == b->Some_0 && end_delim(s[q]))) }
proof fn lemma_ends(s: Seq<char>, q: int, b: Option<char>) requires rt_ends(s, q, b) ensures value_end(s[q]), op_of(s[q]) is None { axiom_ascii('\n'); }
proof fn rt_nat(c: Cx, p: int, n: nat) requires seg(c.s, p, dec_nat(n)), ({ let q = p + dec_nat(n).len(); q < c.s.len() && value_end(c.s[q]) }) ensures sp_num(c, p) == Ok::<(V, int), PErr>((V::Int(n as int), p + dec_nat(n).len())) {
    lemma_dec_nat(n);
    rt_digits(c.s, p, dec_nat(n), Seq::empty());
    assert(Seq::<char>::empty() + dec_nat(n) =~= dec_nat(n));
}
proof fn rt_whole(c: Cx, p: int, n: nat) requires seg(c.s, p, dec_nat(n) + ".0"@), ({ let q = p + dec_nat(n).len() + 2; q < c.s.len() && value_end(c.s[q]) }) ensures sp_num(c, p) == Ok::<(V, int), PErr>((V::Frac(Q { n: n as int, d: 1 }), p + dec_nat(n).len() + 2)) {
    let x = dec_nat(n); let q = p + x.len();
    reveal_strlit(".0");
    lemma_dec_nat(n);
    seg_cat(c.s, p, x, ".0"@);
    rt_digits(c.s, p, x, Seq::empty());
    assert(Seq::<char>::empty() + x =~= x);
    seg_at(c.s, q, ".0"@, 0); seg_at(c.s, q, ".0"@, 1);
    axiom_ascii('.'); lemma_digit_end('0');
    let z = Seq::<char>::empty().push('0');
    reveal_with_fuel(num_scan, 4);
    assert(num_scan(c.s, q, x, Seq::empty(), false, false) == NumScan::Done(x, z, true, q + 2));
    lemma_digits_app(x, z); assert(z.drop_last() =~= Seq::<char>::empty()); reveal_with_fuel(digits_val, 3); reveal_with_fuel(ipow, 3);
    assert(digits_val(z) == 0); assert(ipow(10, z.len()) == 10);
    lemma_rat_scale(10, n as int, 1); lemma_rat_int(n as int);
    let (v, w) = (digits_val(x), ipow(10, z.len())); assert(v * w == 10 * v) by (nonlinear_arith) requires w == 10;
    assert(digits_val(x + z) == 10 * n); assert(z.len() == 1); assert(x.len() > 0);
    assert(num_scan(c.s, p, Seq::empty(), Seq::empty(), false, false) == NumScan::Done(x, z, true, q + 2));
}

// ---- words and names
proof fn rt_word(s: Seq<char>, p: int, x: Seq<char>, acc: Seq<char>) requires seg(s, p, x), forall|i: int| 0 <= i < x.len() ==> is_alpha(#[trigger] x[i]) && !value_end(x[i]) && x[i] != '.' ensures var_scan(s, p, acc) == var_scan(s, p + x.len(), acc + x) decreases x.len() {
    if x.len() == 0 { assert(acc + x =~= acc); }
    else {
        seg_last(s, p, x);
        let y = x.drop_last();
        assert forall|i: int| 0 <= i < y.len() implies is_alpha(#[trigger] y[i]) && !value_end(y[i]) && y[i] != '.' by { assert(is_alpha(x[i])); }
        rt_word(s, p, y, acc);
        assert(is_alpha(x[x.len() - 1]));
        assert((acc + y).push(x.last()) =~= acc + x);
    }
}
/// A name character ends nothing and starts nothing else.
proof fn lemma_name(c: char, first: bool) requires name_char(c, first) ensures !is_ws(c), c != '#', !end_delim(c), c != ':', c != '@', c != '^', field_char(c, first) {
    axiom_ascii(c);
}
proof fn rt_name(s: Seq<char>, p: int, x: Seq<char>, acc: Seq<char>, first: bool) requires seg(s, p, x), x.len() > 0, forall|i: int| 0 <= i < x.len() ==> name_char(#[trigger] x[i], first && i == 0) ensures field_scan(s, p, acc, first) == field_scan(s, p + x.len(), acc + x, false) decreases x.len() {
    seg_last(s, p, x);
    let y = x.drop_last(); let c = x.last();
    assert(name_char(x[x.len() - 1], first && x.len() == 1));
    lemma_name(c, first && x.len() == 1);
    assert((acc + y).push(c) =~= acc + x);
    if x.len() > 1 {
        assert forall|i: int| 0 <= i < y.len() implies name_char(#[trigger] y[i], first && i == 0) by { assert(name_char(x[i], first && i == 0)); }
        rt_name(s, p, y, acc, first);
    } else { assert(acc + y =~= acc); }
}
/// A valid, unreserved name and a colon are read as a field.
pub proof fn th_field_accepted(c: Cx, p: int, x: Seq<char>) requires seg(c.s, p, x + ":"@), valid_name(x), !reserved(x) ensures sp_field(c, p) == Ok::<(Seq<char>, FK, int), PErr>((x, FK::Regular, p + x.len() + 1)) {
    reveal_strlit(":"); reveal_strlit("^");
    seg_cat(c.s, p, x, ":"@);
    seg_at(c.s, p, x, 0); seg_at(c.s, p + x.len(), ":"@, 0);
    assert(name_char(x[0], true)); lemma_name(x[0], true);
    rt_name(c.s, p, x, Seq::empty(), true);
    assert(Seq::<char>::empty() + x =~= x);
    assert("^"@[0] == '^');
}
proof fn rt_parent(c: Cx, p: int) requires seg(c.s, p, "^:"@) ensures sp_field(c, p) == Ok::<(Seq<char>, FK, int), PErr>(("^"@, FK::Parent, p + 2)) {
    reveal_strlit("^:"); reveal_strlit("^"); reveal_strlit("@"); reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("Obj"); reveal_strlit("Str"); reveal_strlit("Arr"); reveal_strlit("Tup");
    seg_at(c.s, p, "^:"@, 0); seg_at(c.s, p, "^:"@, 1);
    axiom_ascii('^'); axiom_ascii(':');
    let n = Seq::<char>::empty().push('^');
    assert(n =~= "^"@);
    reveal_with_fuel(field_scan, 3);
    assert(n[0] == '^'); assert("@"@[0] == '@');
    assert("null"@[0] == 'n' && "true"@[0] == 't' && "false"@[0] == 'f' && "Obj"@[0] == 'O' && "Str"@[0] == 'S' && "Arr"@[0] == 'A' && "Tup"@[0] == 'T');
}

// ---- blanks
proof fn rt_spaces(s: Seq<char>, p: int, n: int) requires seg(s, p, sp(n)), n >= 0 ensures sp(n).len() == n, skip(s, p) == skip(s, p + n) decreases n {
    reveal_strlit(" ");
    if n == 0 { } else {
        let m = (n - 1) as nat;
        assert(sp(n) == sp(n - 1) + " "@);
        seg_cat(s, p, sp(n - 1), " "@);
        rt_spaces(s, p, n - 1);
        seg_at(s, p + n - 1, " "@, 0);
        axiom_ascii(' ');
    }
}

// ---- values
/// Values as they can be written: numbers reduced, names valid and each used once, no include keyword.
pub open spec fn wr(v: V) -> bool decreases v {
    match v {
        V::Frac(q) => q_wf(q),
        V::Arr(vs, t) => arr_type(vs) == Some(t) && forall|i: int| 0 <= i < vs.len() ==> wr(#[trigger] vs[i]),
        V::Tup(vs, ts) => ts == vtypes(vs) && forall|i: int| 0 <= i < vs.len() ==> wr(#[trigger] vs[i]),
        V::Obj(o) => owr(o),
        _ => true,
    }
}
pub open spec fn good_name(x: Seq<char>) -> bool { valid_name(x) && !reserved(x) }
pub open spec fn owr(o: O) -> bool decreases o {
    o.tag == 0
    && (match o.parent { Some(p) => owr(*p), None => true })
    && (forall|i: int| 0 <= i < o.pairs.len() ==> good_name((#[trigger] o.pairs[i]).0) && wr(o.pairs[i].1))
    && (forall|i: int, j: int| 0 <= i < j < o.pairs.len() ==> (#[trigger] o.pairs[i]).0 != (#[trigger] o.pairs[j]).0)
}
pub open spec fn rt_ok(v: V, st: St, q: int) -> Result<(V, St), PErr> { Ok((v, St { p: q, ..st })) }
/// A value read by itself, followed by the end of the line or the bracket, is the whole value.
proof fn rt_full(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, v: V, q: int)
    requires sp_prim(c, st, ps, d, b) == rt_ok(v, st, q), rt_ends(c.s, q, b), st.p < q
    ensures sp_full(c, st, ps, d, b) == rt_ok(v, st, q)
{
    let st1 = St { p: q, ..st }; let vals = seq![(v, ln(c.s, st.p), cl(c.s, st.p))];
    unfold_sp_full(c, st, ps, d, b);
    unfold_sp_chain(c, st1, ps, d, b, vals, Seq::empty());
    lemma_ends(c.s, q, b); axiom_ascii('\n');
    assert(vals[0].0 == v);
}
/// A number by itself.
proof fn rt_prim_nat(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, n: nat)
    requires seg(c.s, st.p, dec_nat(n)), d <= 65, ({ let q = st.p + dec_nat(n).len(); q < c.s.len() && value_end(c.s[q]) })
    ensures sp_prim(c, st, ps, d, b) == rt_ok(V::Int(n as int), st, st.p + dec_nat(n).len())
{
    lemma_dec_nat(n); rt_nat(c, st.p, n); seg_at(c.s, st.p, dec_nat(n), 0); assert(is_digit_c(dec_nat(n)[0]));
    unfold_sp_prim(c, st, ps, d, b);
}
proof fn rt_prim_whole(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, n: nat)
    requires seg(c.s, st.p, dec_nat(n) + ".0"@), d <= 65, ({ let q = st.p + dec_nat(n).len() + 2; q < c.s.len() && value_end(c.s[q]) })
    ensures sp_prim(c, st, ps, d, b) == rt_ok(V::Frac(Q { n: n as int, d: 1 }), st, st.p + dec_nat(n).len() + 2)
{
    seg_cat(c.s, st.p, dec_nat(n), ".0"@);
    lemma_dec_nat(n); rt_whole(c, st.p, n); seg_at(c.s, st.p, dec_nat(n), 0); assert(is_digit_c(dec_nat(n)[0]));
    unfold_sp_prim(c, st, ps, d, b);
}
/// A minus sign in front.
proof fn rt_prim_minus(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, v: V, q: int)
    requires 0 <= st.p, st.p + 1 < c.s.len(), c.s[st.p] == '-', d <= 64, v is Int || v is Frac, sp_prim(c, St { p: st.p + 1, ..st }, ps, d + 1, b) == rt_ok(v, st, q)
    ensures sp_prim(c, st, ps, d, b) == rt_ok(match v { V::Int(x) => V::Int(-x), V::Frac(x) => V::Frac(Q { n: -x.n, d: x.d }), _ => v }, st, q)
{
    axiom_ascii('-');
    unfold_sp_prim(c, st, ps, d, b);
    unfold_sp_unary(c, st, ps, d, b, UnaryOp::Minus);
}
proof fn rt_prim_int(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, n: int)
    requires seg(c.s, st.p, dec(n)), d <= 64, ({ let q = st.p + dec(n).len(); q < c.s.len() && value_end(c.s[q]) })
    ensures sp_prim(c, st, ps, d, b) == rt_ok(V::Int(n), st, st.p + dec(n).len())
{
    if n < 0 {
        let m = (-n) as nat;
        seg_cat(c.s, st.p, seq!['-'], dec_nat(m)); seg_at(c.s, st.p, seq!['-'], 0); lemma_dec_nat(m); seg_at(c.s, st.p + 1, dec_nat(m), 0);
        rt_prim_nat(c, St { p: st.p + 1, ..st }, ps, d + 1, b, m);
        rt_prim_minus(c, st, ps, d, b, V::Int(m as int), st.p + dec(n).len());
    } else { rt_prim_nat(c, st, ps, d, b, n as nat); }
}
proof fn rt_full_frac(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, f: Q)
    requires q_wf(f), seg(c.s, st.p, fmt_q(f)), d <= 64, rt_ends(c.s, st.p + fmt_q(f).len(), b)
    ensures sp_full(c, st, ps, d, b) == rt_ok(V::Frac(f), st, st.p + fmt_q(f).len())
{
    let q = st.p + fmt_q(f).len(); let n = f.n; let m = if n < 0 { (-n) as nat } else { n as nat };
    lemma_ends(c.s, q, b); lemma_dec_nat(m); reveal_strlit(".0");
    if f.d == 1 {
        if n < 0 {
            assert(fmt_q(f) =~= seq!['-'] + (dec_nat(m) + ".0"@));
            seg_cat(c.s, st.p, seq!['-'], dec_nat(m) + ".0"@); seg_at(c.s, st.p, seq!['-'], 0); seg_at(c.s, st.p + 1, dec_nat(m) + ".0"@, 0);
            rt_prim_whole(c, St { p: st.p + 1, ..st }, ps, d + 1, b, m);
            rt_prim_minus(c, st, ps, d, b, V::Frac(Q { n: m as int, d: 1 }), q);
        } else { rt_prim_whole(c, st, ps, d, b, m); }
        rt_full(c, st, ps, d, b, V::Frac(f), q);
    } else {
        let e = f.d as nat; let p1 = st.p + dec(n).len(); let p2 = p1 + 1; let st1 = St { p: p1, ..st }; let st2 = St { p: p2, ..st }; let st3 = St { p: q, ..st };
        seg_cat(c.s, st.p, dec(n) + seq!['/'], dec(f.d)); seg_cat(c.s, st.p, dec(n), seq!['/']); seg_at(c.s, p1, seq!['/'], 0);
        lemma_dec_nat(e); seg_at(c.s, p2, dec_nat(e), 0);
        rt_prim_int(c, st, ps, d, b, n);
        rt_prim_nat(c, st2, ps, d, b, e);
        let (l, co) = (ln(c.s, st.p), cl(c.s, st.p));
        let vals = seq![(V::Int(n), l, co)]; let vals2 = vals.drop_last().push((V::Frac(f), l, co));
        unfold_sp_full(c, st, ps, d, b);
        unfold_sp_chain(c, st1, ps, d, b, vals, Seq::empty());
        unfold_sp_chain(c, st3, ps, d, b, vals2, Seq::empty());
        assert(gcd(abs_i(n) as nat, e) == 1);
        assert(n / 1 == n && f.d / 1 == f.d) by (nonlinear_arith);
        assert(rat(n, f.d) == f);
        axiom_ascii('\n');
        assert(vals2[0].0 == V::Frac(f)); assert(vals.last() == (V::Int(n), l, co));
    }
}
/// null, true and false.
proof fn rt_prim_word(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, v: V)
    requires v is Null || v is Bool, seg(c.s, st.p, fmt_v(v, 0)), d <= 64, rt_ends(c.s, st.p + fmt_v(v, 0).len(), b)
    ensures sp_prim(c, st, ps, d, b) == rt_ok(v, st, st.p + fmt_v(v, 0).len())
{
    let x = fmt_v(v, 0); let q = st.p + x.len();
    reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false");
    assert("null"@[0] == 'n' && "true"@[0] == 't' && "false"@[0] == 'f');
    assert forall|i: int| 0 <= i < x.len() implies is_alpha(#[trigger] x[i]) && !value_end(x[i]) && x[i] != '.' by { axiom_ascii(x[i]); }
    seg_at(c.s, st.p, x, 0); axiom_ascii(x[0]);
    rt_word(c.s, st.p, x, Seq::empty());
    lemma_ends(c.s, q, b); axiom_ascii('\n');
    assert(Seq::<char>::empty() + x =~= x);
    unfold_sp_prim(c, st, ps, d, b);
    unfold_sp_var(c, st, ps, d, b, false);
}

// ---- containers
/// The first character of a written value neither ends anything nor is blank.
proof fn rt_first(s: Seq<char>, p: int, v: V, n: int) requires wr(v), seg(s, p, fmt_v(v, n)) ensures fmt_v(v, n).len() > 0, 0 <= p < s.len(), !is_ws(s[p]), s[p] != '#', !end_delim(s[p]) decreases v {
    let x = fmt_v(v, n);
    reveal_strlit("null"); reveal_strlit("true"); reveal_strlit("false"); reveal_strlit("\""); reveal_strlit("[]"); reveal_strlit("()"); reveal_strlit("{}"); reveal_strlit("["); reveal_strlit("("); reveal_strlit("[\n"); reveal_strlit("(\n"); reveal_strlit("{\n");
    match v {
        V::Int(i) => { rt_first_dec(i); }
        V::Frac(f) => { rt_first_dec(f.n); }
        V::Str(y) => { assert(x[0] == '"'); }
        V::Arr(vs, _) => { assert(x[0] == '['); }
        V::Tup(vs, _) => { assert(x[0] == '('); }
        V::Obj(o) => { assert(x == fmt_o(o, true, n)); assert(fmt_head(o, true, n).len() > 0 && fmt_head(o, true, n)[0] == '{'); assert(x[0] == '{'); }
        V::Null => { assert(x[0] == 'n'); }
        V::Bool(k) => { assert(x[0] == (if k { 't' } else { 'f' })); }
    }
    seg_at(s, p, x, 0); axiom_ascii(x[0]);
}
proof fn rt_first_dec(n: int) ensures dec(n).len() > 0, dec(n)[0] == '-' || is_digit_c(dec(n)[0]) {
    let m = if n < 0 { (-n) as nat } else { n as nat };
    lemma_dec_nat(m);
}
/// The text of the first j lines is a prefix of the text of all lines.
proof fn rt_lines(s: Seq<char>, p: int, vs: Seq<V>, j: int, n: int) requires 0 <= j <= vs.len(), seg(s, p, fmt_lines(vs, vs.len() as int, n)) ensures seg(s, p, fmt_lines(vs, j, n)) decreases vs.len() - j {
    if j < vs.len() { rt_lines(s, p, vs, j + 1, n); seg_cat(s, p, fmt_lines(vs, j, n), sp(n) + fmt_v(vs[j], n + 4) + "\n"@); }
}
/// One line: blanks, the value, the end of the line.
proof fn rt_line(s: Seq<char>, p: int, vs: Seq<V>, j: int, n: int) requires 0 <= j < vs.len(), n >= 0, seg(s, p, fmt_lines(vs, vs.len() as int, n))
    ensures ({ let a = p + fmt_lines(vs, j, n).len(); seg(s, a, sp(n)) && seg(s, a + n, fmt_v(vs[j], n + 4)) && sp(n).len() == n && a + n + fmt_v(vs[j], n + 4).len() < s.len() && s[a + n + fmt_v(vs[j], n + 4).len()] == '\n'
        && fmt_lines(vs, j + 1, n).len() == fmt_lines(vs, j, n).len() + n + fmt_v(vs[j], n + 4).len() + 1 })
{
    let x = fmt_v(vs[j], n + 4); let a = p + fmt_lines(vs, j, n).len();
    reveal_strlit("\n");
    rt_lines(s, p, vs, j + 1, n);
    seg_cat(s, p, fmt_lines(vs, j, n), sp(n) + x + "\n"@);
    seg_cat(s, a, sp(n) + x, "\n"@); seg_cat(s, a, sp(n), x);
    rt_spaces(s, a, n);
    seg_at(s, a + n + x.len(), "\n"@, 0);
}
proof fn rt_skip_nl(s: Seq<char>, p: int) requires 0 <= p < s.len(), s[p] == '\n' ensures skip(s, p) == skip(s, p + 1) { axiom_ascii('\n'); }
proof fn lemma_fold_some(ts: Seq<T>, k: nat) requires k <= ts.len(), msp_fold(ts, ts.len()) is Some ensures msp_fold(ts, k) is Some decreases ts.len() - k { if k < ts.len() { lemma_fold_some(ts, k + 1); } }
/// The type of the first k elements, where one is kept.
pub open spec fn rt_ty(arr: bool, vs: Seq<V>, k: int) -> Option<T> { if arr { msp_fold(vtypes(vs), k as nat) } else { None } }
pub open spec fn rt_wrs(vs: Seq<V>, d: int) -> bool { forall|i: int| 0 <= i < vs.len() ==> wr(#[trigger] vs[i]) && deep_le(vs[i], d) }

/// The text of a value is read as that value.
pub proof fn th_rt_value(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, v: V, n: int)
    requires wr(v), deep_le(v, 64 - d), 0 <= d <= 64, n >= 0, seg(c.s, st.p, fmt_v(v, n)), rt_ends(c.s, st.p + fmt_v(v, n).len(), b)
    ensures sp_full(c, st, ps, d, b) == rt_ok(v, st, st.p + fmt_v(v, n).len())
    decreases v, 1nat, 0int
{
    let q = st.p + fmt_v(v, n).len();
    rt_first(c.s, st.p, v, n);
    lemma_ends(c.s, q, b);
    match v {
        V::Frac(f) => { rt_full_frac(c, st, ps, d, b, f); }
        V::Int(i) => { rt_prim_int(c, st, ps, d, b, i); rt_full(c, st, ps, d, b, v, q); }
        V::Null => { rt_prim_word(c, st, ps, d, b, v); rt_full(c, st, ps, d, b, v, q); }
        V::Bool(_) => { rt_prim_word(c, st, ps, d, b, v); rt_full(c, st, ps, d, b, v, q); }
        V::Str(x) => {
            th_str_round_trip(c, st.p, x);
            reveal_strlit("\""); seg_at(c.s, st.p, fmt_s(x), 0);
            unfold_sp_prim(c, st, ps, d, b);
            rt_full(c, st, ps, d, b, v, q);
        }
        V::Arr(vs, t) => { rt_seq(c, st, ps, d, b, v, vs, true, n); rt_full(c, st, ps, d, b, v, q); }
        V::Tup(vs, ts) => { rt_seq(c, st, ps, d, b, v, vs, false, n); rt_full(c, st, ps, d, b, v, q); }
        V::Obj(o) => { rt_obj(c, st, ps, d, b, o, n); }
    }
}
proof fn rt_seq(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, v: V, vs: Seq<V>, arr: bool, n: int)
    requires wr(v), deep_le(v, 64 - d), 0 <= d <= 64, n >= 0, seg(c.s, st.p, fmt_v(v, n)), rt_ends(c.s, st.p + fmt_v(v, n).len(), b), match v { V::Arr(x, _) => x == vs && arr, V::Tup(x, _) => x == vs && !arr, _ => false }
    ensures sp_prim(c, st, ps, d, b) == rt_ok(v, st, st.p + fmt_v(v, n).len())
    decreases v, 0nat, 0int
{
    let x = fmt_v(v, n); let q = st.p + x.len(); let s = c.s; let cl = if arr { ']' } else { ')' }; let st1 = St { p: st.p + 1, ..st };
    reveal_strlit("[]"); reveal_strlit("()"); reveal_strlit("["); reveal_strlit("("); reveal_strlit("]"); reveal_strlit(")"); reveal_strlit("[\n"); reveal_strlit("(\n");
    assert(rt_wrs(vs, 64 - (d + 1)));
    axiom_ascii(']'); axiom_ascii(')'); axiom_ascii('\n');
    let ts = vtypes(vs);
    if arr { assert(msp_fold(ts, 0) == Some(T::Any)); lemma_fold_some(ts, 0); }
    assert(vs.take(0) =~= Seq::empty()); assert(vs.take(vs.len() as int) =~= vs);
    unfold_sp_prim(c, st, ps, d, b);
    if arr { unfold_sp_arr(c, st, ps, d + 1); } else { unfold_sp_tup(c, st, ps, d + 1); }
    let goal = Ok::<(Seq<V>, Option<T>, St), PErr>((vs, rt_ty(arr, vs, vs.len() as int), St { p: q, ..st }));
    if vs.len() == 0 {
        seg_at(s, st.p, x, 0); seg_at(s, st.p, x, 1);
        assert(skip(s, st.p + 1) == st.p + 1);
        unfold_sp_elems(c, st1, ps, d + 1, Some(cl), Seq::empty(), rt_ty(arr, vs, 0));
    } else if vs.len() == 1 {
        let y = fmt_v(vs[0], n); let op = if arr { "["@ } else { "("@ }; let en = if arr { "]"@ } else { ")"@ };
        seg_cat(s, st.p, op + y, en); seg_cat(s, st.p, op, y); seg_at(s, st.p, op, 0); seg_at(s, q - 1, en, 0);
        rt_first(s, st.p + 1, vs[0], n);
        assert(skip(s, st.p + 1) == st.p + 1); assert(skip(s, q - 1) == q - 1);
        th_rt_value(c, st1, ps, d + 1, Some(cl), vs[0], n);
        unfold_sp_elems(c, st1, ps, d + 1, Some(cl), Seq::empty(), rt_ty(arr, vs, 0));
        unfold_sp_elems(c, St { p: q - 1, ..st }, ps, d + 1, Some(cl), vs, rt_ty(arr, vs, 1));
        assert(Seq::<V>::empty().push(vs[0]) =~= vs);
        assert(ts[0] == vtype(vs[0]));
    } else {
        let op = if arr { "[\n"@ } else { "(\n"@ }; let ls = fmt_lines(vs, vs.len() as int, n); let en = if arr { "]"@ } else { ")"@ };
        assert(x =~= op + (ls + (sp(n - 4) + en)));
        seg_cat(s, st.p, op, ls + (sp(n - 4) + en)); seg_cat(s, st.p + 2, ls, sp(n - 4) + en);
        seg_at(s, st.p, op, 0); seg_at(s, st.p, op, 1);
        rt_skip_nl(s, st.p + 1);
        rt_elems(c, St { p: st.p + 1, ..st }, ps, d + 1, cl, vs, arr, n, st.p + 2, 0);
    }
}
/// The remaining lines of a sequence, from the end of the line before.
proof fn rt_elems(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, cl: char, vs: Seq<V>, arr: bool, n: int, base: int, k: int)
    requires rt_wrs(vs, 64 - d), 0 <= d <= 64, n >= 0, 0 <= k <= vs.len(), cl == (if arr { ']' } else { ')' }),
        arr ==> msp_fold(vtypes(vs), vs.len()) is Some,
        seg(c.s, base, fmt_lines(vs, vs.len() as int, n)), seg(c.s, base + fmt_lines(vs, vs.len() as int, n).len(), sp(n - 4) + (if arr { "]"@ } else { ")"@ })),
        st.p == base + fmt_lines(vs, k, n).len() - 1, st.p >= 0, st.p < c.s.len(), c.s[st.p] == '\n',
    ensures sp_elems(c, st, ps, d, Some(cl), vs.take(k), rt_ty(arr, vs, k)) == Ok::<(Seq<V>, Option<T>, St), PErr>((vs, rt_ty(arr, vs, vs.len() as int), St { p: base + fmt_lines(vs, vs.len() as int, n).len() + (sp(n - 4) + (if arr { "]"@ } else { ")"@ })).len(), ..st }))
    decreases vs, vs.len() - k, 0int
{
    let s = c.s; let all = vs.len() as int; let ls = fmt_lines(vs, all, n); let en = if arr { "]"@ } else { ")"@ };
    reveal_strlit("]"); reveal_strlit(")");
    rt_skip_nl(s, st.p);
    axiom_ascii(']'); axiom_ascii(')'); axiom_ascii('\n');
    unfold_sp_elems(c, st, ps, d, Some(cl), vs.take(k), rt_ty(arr, vs, k));
    if k == all {
        let m = if n < 4 { 0 } else { n - 4 };
        assert(sp(n - 4) == sp(m));
        seg_cat(s, base + ls.len(), sp(n - 4), en);
        rt_spaces(s, base + ls.len(), m);
        seg_at(s, base + ls.len() + m, en, 0);
        assert(skip(s, base + ls.len() + m) == base + ls.len() + m);
        assert(vs.take(k) =~= vs);
    } else {
        let y = fmt_v(vs[k], n + 4); let a = base + fmt_lines(vs, k, n).len();
        rt_line(s, base, vs, k, n);
        rt_spaces(s, a, n);
        rt_first(s, a + n, vs[k], n + 4);
        assert(skip(s, a + n) == a + n);
        assert(wr(vs[k]) && deep_le(vs[k], 64 - d));
        th_rt_value(c, St { p: a + n, ..st }, ps, d, Some(cl), vs[k], n + 4);
        rt_elems(c, St { p: a + n + y.len(), ..st }, ps, d, cl, vs, arr, n, base, k + 1);
        assert(vs.take(k).push(vs[k]) =~= vs.take(k + 1));
        if arr { let ts = vtypes(vs); lemma_fold_some(ts, (k + 1) as nat); assert(ts[k] == vtype(vs[k])); }
    }
}

/// The text of the first j fields is a prefix of the text of all of them; one field: blanks, name, colon, value, end of the line.
proof fn rt_fields(s: Seq<char>, p: int, ps: Seq<(Seq<char>, V)>, j: int, n: int) requires 0 <= j <= ps.len(), seg(s, p, fmt_fields(ps, ps.len() as int, n)) ensures seg(s, p, fmt_fields(ps, j, n)) decreases ps.len() - j {
    if j < ps.len() { rt_fields(s, p, ps, j + 1, n); seg_cat(s, p, fmt_fields(ps, j, n), sp(n) + ps[j].0 + ": "@ + fmt_v(ps[j].1, n + 4) + "\n"@); }
}
pub open spec fn fpos(ps: Seq<(Seq<char>, V)>, base: int, j: int, n: int) -> int { base + fmt_fields(ps, j, n).len() }
proof fn rt_field(s: Seq<char>, p: int, ps: Seq<(Seq<char>, V)>, j: int, n: int) requires 0 <= j < ps.len(), n >= 0, seg(s, p, fmt_fields(ps, ps.len() as int, n))
    ensures ({ let a = fpos(ps, p, j, n); let w = ps[j].0.len(); let x = fmt_v(ps[j].1, n + 4); seg(s, a, sp(n)) && sp(n).len() == n && seg(s, a + n, ps[j].0 + ":"@) && s[a + n + w + 1] == ' ' && seg(s, a + n + w + 2, x)
        && a + n + w + 2 + x.len() < s.len() && s[a + n + w + 2 + x.len()] == '\n' && fpos(ps, p, j + 1, n) == a + n + w + 2 + x.len() + 1 })
{
    let x = fmt_v(ps[j].1, n + 4); let a = fpos(ps, p, j, n); let nm = ps[j].0;
    reveal_strlit("\n"); reveal_strlit(": "); reveal_strlit(":");
    rt_fields(s, p, ps, j + 1, n);
    seg_cat(s, p, fmt_fields(ps, j, n), sp(n) + nm + ": "@ + x + "\n"@);
    seg_cat(s, a, sp(n) + nm + ": "@ + x, "\n"@); seg_cat(s, a, sp(n) + nm + ": "@, x);
    assert(sp(n) + nm + ": "@ =~= sp(n) + ((nm + ":"@) + seq![' ']));
    seg_cat(s, a, sp(n), (nm + ":"@) + seq![' ']);
    rt_spaces(s, a, n);
    seg_cat(s, a + n, nm + ":"@, seq![' ']); seg_at(s, a + n + nm.len() + 1, seq![' '], 0);
    seg_at(s, a + n + nm.len() + 2 + x.len(), "\n"@, 0);
}
/// How the fields end: with the closing brace, or with the text.
pub open spec fn rt_close(s: Seq<char>, end: int, n: int, b: Option<char>) -> bool { match b { Some(x) => x == '}' && seg(s, end, sp(n - 4) + "}"@), None => end == s.len() } }
pub open spec fn rt_after(s: Seq<char>, end: int, n: int, b: Option<char>) -> int { if b is Some { end + (sp(n - 4) + "}"@).len() } else { s.len() as int } }
pub open spec fn rt_pairs(ps: Seq<(Seq<char>, V)>, d: int) -> bool {
    (forall|i: int| 0 <= i < ps.len() ==> good_name((#[trigger] ps[i]).0) && wr(ps[i].1) && deep_le(ps[i].1, d))
    && (forall|i: int, j: int| 0 <= i < j < ps.len() ==> (#[trigger] ps[i]).0 != (#[trigger] ps[j]).0)
}
/// Where reading goes on before the k-th field.
proof fn rt_next(s: Seq<char>, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, n: int, base: int, k: int)
    requires rt_pairs(ps, d), n >= 0, 0 <= k <= ps.len(), seg(s, base, fmt_fields(ps, ps.len() as int, n)), rt_close(s, fpos(ps, base, ps.len() as int, n), n, b)
    ensures ({ let a = fpos(ps, base, k, n); let q = skip(s, a); 0 <= base <= a <= q && (k < ps.len() ==> q == a + n && q < s.len()) && (k == ps.len() && b is Some ==> q < s.len() && s[q] == '}' && q + 1 == rt_after(s, a, n, b)) && (k == ps.len() && b is None ==> q == s.len()) })
{
    let a = fpos(ps, base, k, n);
    reveal_strlit("}"); axiom_ascii('}');
    if k < ps.len() {
        rt_field(s, base, ps, k, n);
        rt_spaces(s, a, n);
        seg_at(s, a + n, ps[k].0 + ":"@, 0);
        assert(good_name(ps[k].0)); assert(name_char(ps[k].0[0], true)); lemma_name(ps[k].0[0], true);
        assert(skip(s, a + n) == a + n);
    } else if b is Some {
        let m = if n < 4 { 0 } else { n - 4 };
        assert(sp(n - 4) == sp(m));
        seg_cat(s, a, sp(n - 4), "}"@);
        rt_spaces(s, a, m);
        seg_at(s, a + m, "}"@, 0);
        assert(skip(s, a + m) == a + m);
    }
}
/// The remaining fields of an object.
#[verifier::spinoff_prover]
proof fn rt_rest(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, par: Option<O>, d: int, b: Option<char>, n: int, base: int, k: int)
    requires rt_pairs(ps, 64 - d), 0 <= d <= 64, n >= 0, 0 <= k <= ps.len(), seg(c.s, base, fmt_fields(ps, ps.len() as int, n)), rt_close(c.s, fpos(ps, base, ps.len() as int, n), n, b),
        b is None ==> k < ps.len(), st.p == skip(c.s, fpos(ps, base, k, n))
    ensures sp_fields(c, st, ps.take(k), par, d, b) == Ok::<(O, St), PErr>((O { pairs: ps, parent: match par { Some(o) => Some(Box::new(o)), None => None }, tag: 0 }, St { p: rt_after(c.s, fpos(ps, base, ps.len() as int, n), n, b), ..st }))
    decreases ps, ps.len() - k, 0int
{
    let s = c.s; let all = ps.len() as int; let pk = ps.take(k);
    rt_next(s, ps, 64 - d, b, n, base, k);
    unfold_sp_fields(c, st, pk, par, d, b);
    unfold_sp_pair(c, st, pk, par, d, b);
    let goal = Ok::<(O, St), PErr>((O { pairs: ps, parent: match par { Some(o) => Some(Box::new(o)), None => None }, tag: 0 }, St { p: rt_after(s, fpos(ps, base, all, n), n, b), ..st }));
    if k == all { assert(pk =~= ps); assert(sp_pair(c, st, pk, par, d, b) == Ok::<(bool, Seq<(Seq<char>, V)>, Option<O>, St), PErr>((false, ps, par, St { p: st.p + 1, ..st }))); assert(sp_fields(c, st, pk, par, d, b) == goal); }
    else {
        let (nm, v) = ps[k]; let x = fmt_v(v, n + 4); let a = fpos(ps, base, k, n); let q1 = a + n + nm.len() + 1; let q2 = q1 + 1; let q3 = q2 + x.len();
        assert(good_name(nm) && wr(v) && deep_le(v, 64 - d));
        rt_field(s, base, ps, k, n);
        seg_at(s, a + n, nm + ":"@, 0); assert((nm + ":"@)[0] == nm[0]);
        assert(name_char(nm[0], true)); lemma_name(nm[0], true);
        th_field_accepted(c, a + n, nm);
        rt_first(s, q2, v, n + 4);
        axiom_ascii(' '); assert(skip(s, q2) == q2); assert(skip(s, q1) == q2);
        th_rt_value(c, St { p: q2, ..st }, pk, d, b, v, n + 4);
        rt_skip_nl(s, q3);
        assert(!has_field(pk, nm)) by { if has_field(pk, nm) { let i = choose|i: int| 0 <= i < pk.len() && (#[trigger] pk[i]).0 == nm; assert(ps[i].0 != ps[k].0); } }
        assert(pk.push((nm, v)) =~= ps.take(k + 1));
        rt_next(s, ps, 64 - d, b, n, base, k + 1);
        let st3 = St { p: skip(s, q3), ..st };
        assert(at(s, st.p) == Some(nm[0])); assert(nm[0] != '}' && !end_delim(nm[0]));
        assert(sp_field(c, st.p) == Ok::<(Seq<char>, FK, int), PErr>((nm, FK::Regular, q1)));
        assert(St { p: q2, ..St { p: q2, ..st } } == St { p: q2, ..st });
        assert(sp_full(c, St { p: q2, ..st }, pk, d, b) == Ok::<(V, St), PErr>((v, St { p: q3, ..st })));
        assert(st.p < q2 < s.len());
        assert(k + 1 < all || b is Some ==> skip(s, q3) < s.len());
        assert(sp_pair(c, st, pk, par, d, b) == Ok::<(bool, Seq<(Seq<char>, V)>, Option<O>, St), PErr>((skip(s, q3) < s.len(), ps.take(k + 1), par, st3)));
        if k + 1 < all || b is Some {
            rt_rest(c, st3, ps, par, d, b, n, base, k + 1);
            assert(sp_fields(c, st, pk, par, d, b) == sp_fields(c, st3, ps.take(k + 1), par, d, b));
            assert(sp_fields(c, st, pk, par, d, b) == goal);
        } else { assert(ps.take(k + 1) =~= ps); assert(sp_fields(c, st, pk, par, d, b) == goal); }
    }
}
pub open spec fn fmt_par(o: O, n: int) -> Seq<char> { match o.parent { Some(p) => sp(n) + "^: "@ + fmt_o(*p, true, n + 4) + "\n"@, None => Seq::empty() } }
/// All fields of an object, the parent first.
#[verifier::spinoff_prover]
proof fn rt_body(c: Cx, st: St, d: int, b: Option<char>, o: O, n: int, base: int)
    requires owr(o), odeep_le(o, 65 - d), 0 <= d <= 64, n >= 0, o.pairs.len() > 0 || o.parent is Some || b is Some, seg(c.s, base, fmt_par(o, n)), seg(c.s, base + fmt_par(o, n).len(), fmt_fields(o.pairs, o.pairs.len() as int, n)),
        rt_close(c.s, fpos(o.pairs, base + fmt_par(o, n).len(), o.pairs.len() as int, n), n, b), st.p == skip(c.s, base)
    ensures sp_fields(c, st, Seq::empty(), None, d, b) == Ok::<(O, St), PErr>((o, St { p: rt_after(c.s, fpos(o.pairs, base + fmt_par(o, n).len(), o.pairs.len() as int, n), n, b), ..st })), 0 <= st.p < c.s.len(), st.p >= base
    decreases o, 0nat, 0int
{
    let s = c.s; let ps = o.pairs; let all = ps.len() as int; let e = Seq::<(Seq<char>, V)>::empty(); let base1 = base + fmt_par(o, n).len();
    assert(ps.take(0) =~= e);
    assert(rt_pairs(ps, 64 - d)) by { assert forall|i: int| 0 <= i < ps.len() implies good_name((#[trigger] ps[i]).0) && wr(ps[i].1) && deep_le(ps[i].1, 64 - d) by { assert(deep_le(ps[i].1, 65 - d - 1)); } }
    rt_next(s, ps, 64 - d, b, n, base1, 0);
    match o.parent {
        None => { assert(base1 == base); assert(fpos(ps, base, 0, n) == base); rt_rest(c, st, ps, None, d, b, n, base, 0); }
        Some(bp) => {
            let p = *bp; let x = fmt_o(p, true, n + 4); let q0 = base + n; let q1 = q0 + 2; let q2 = q1 + 1; let q3 = q2 + x.len();
            reveal_strlit("\n"); reveal_strlit("^: "); reveal_strlit("^:");
            seg_cat(s, base, sp(n) + "^: "@ + x, "\n"@); seg_cat(s, base, sp(n) + "^: "@, x);
            assert(sp(n) + "^: "@ =~= sp(n) + ("^:"@ + seq![' ']));
            seg_cat(s, base, sp(n), "^:"@ + seq![' ']);
            rt_spaces(s, base, n);
            seg_cat(s, q0, "^:"@, seq![' ']); seg_at(s, q0, "^:"@, 0); seg_at(s, q1, seq![' '], 0); seg_at(s, q3, "\n"@, 0);
            axiom_ascii('^'); axiom_ascii(' '); axiom_ascii('\n');
            assert(skip(s, q0) == q0);
            rt_parent(c, q0);
            rt_first_obj(s, q2, p, n + 4);
            assert(skip(s, q2) == q2); assert(skip(s, q1) == q2);
            rt_obj(c, St { p: q2, ..st }, e, d, b, p, n + 4);
            rt_skip_nl(s, q3);
            assert(q3 + 1 == base1);
            unfold_sp_fields(c, st, e, None, d, b);
            unfold_sp_pair(c, st, e, None, d, b);
            let st3 = St { p: skip(s, q3), ..st };
            assert(skip(s, base) == skip(s, q0)); assert(st.p == q0);
            if all > 0 || b is Some { rt_rest(c, st3, ps, Some(p), d, b, n, base1, 0); } else { assert(ps =~= e); }
        }
    }
}
proof fn rt_first_obj(s: Seq<char>, p: int, o: O, n: int) requires seg(s, p, fmt_o(o, true, n)) ensures fmt_o(o, true, n).len() > 0, 0 <= p < s.len(), s[p] == '{', !is_ws(s[p]) {
    let x = fmt_o(o, true, n);
    reveal_strlit("{}"); reveal_strlit("{\n");
    assert(fmt_head(o, true, n).len() > 0 && fmt_head(o, true, n)[0] == '{');
    assert(x[0] == '{');
    seg_at(s, p, x, 0); axiom_ascii('{');
}
/// The text of an object in braces is read as that object.
#[verifier::spinoff_prover]
pub proof fn rt_obj(c: Cx, st: St, ps: Seq<(Seq<char>, V)>, d: int, b: Option<char>, o: O, n: int)
    requires owr(o), odeep_le(o, 64 - d), 0 <= d <= 64, n >= 0, seg(c.s, st.p, fmt_o(o, true, n)), rt_ends(c.s, st.p + fmt_o(o, true, n).len(), b)
    ensures sp_full(c, st, ps, d, b) == rt_ok(V::Obj(o), st, st.p + fmt_o(o, true, n).len())
    decreases o, 1nat, 0int
{
    let s = c.s; let x = fmt_o(o, true, n); let q = st.p + x.len(); let e = Seq::<(Seq<char>, V)>::empty();
    reveal_strlit("{}"); reveal_strlit("{\n"); reveal_strlit("}"); axiom_ascii('}'); axiom_ascii('\n');
    rt_first_obj(s, st.p, o, n);
    unfold_sp_prim(c, st, ps, d, b);
    unfold_sp_obj(c, st, d + 1);
    if o.pairs.len() == 0 && o.parent is None {
        seg_at(s, st.p, x, 1);
        assert(skip(s, st.p + 1) == st.p + 1);
        let st1 = St { p: st.p + 1, ..st };
        unfold_sp_fields(c, st1, e, None, d + 1, Some('}'));
        unfold_sp_pair(c, st1, e, None, d + 1, Some('}'));
        assert(o.pairs =~= e);
    } else {
        let fs = fmt_fields(o.pairs, o.pairs.len() as int, n); let pr = fmt_par(o, n); let en = sp(n - 4) + "}"@;
        assert(x =~= "{\n"@ + (pr + (fs + en)));
        seg_cat(s, st.p, "{\n"@, pr + (fs + en)); seg_cat(s, st.p + 2, pr, fs + en); seg_cat(s, st.p + 2 + pr.len(), fs, en);
        seg_at(s, st.p, "{\n"@, 1);
        rt_skip_nl(s, st.p + 1);
        let st1 = St { p: skip(s, st.p + 2), ..st };
        rt_body(c, st1, d + 1, Some('}'), o, n, st.p + 2);
    }
    rt_full(c, st, ps, d, b, V::Obj(o), q);
}
/// C14: the text written for an object, read as a document, denotes that object.
pub proof fn th_round_trip(o: O) requires owr(o), odeep_le(o, 64) ensures sp_text(fmt_o(o, false, 0)) == Ok::<O, PErr>(o) {
    let s = fmt_o(o, false, 0); let c = Cx { s, file: None, cyc: Set::empty() }; let e = Seq::<(Seq<char>, V)>::empty();
    let inc = Map::<(IK, Seq<char>), V>::empty();
    unfold_sp_doc(c, inc, 1);
    if o.pairs.len() == 0 && o.parent is None { assert(s =~= Seq::empty()); assert(skip(s, 0) == 0); assert(o.pairs =~= e); }
    else {
        let fs = fmt_fields(o.pairs, o.pairs.len() as int, 0); let pr = fmt_par(o, 0);
        assert(s =~= pr + fs);
        assert(s.subrange(0, s.len() as int) =~= s);
        seg_cat(s, 0, pr, fs);
        rt_body(c, St { p: skip(s, 0), g: Map::empty(), inc }, 1, None, o, 0, 0);
    }
}
