// ------------------------------------------------------------------ lemmas on numbers
pub proof fn lemma_gcd_scale(g: nat, a: nat, b: nat) requires g > 0 ensures gcd(g * a, g * b) == g * gcd(a, b) decreases b {
    if b == 0 { assert(g * b == 0) by (nonlinear_arith) requires b == 0; reveal_with_fuel(gcd, 1); }
    else {
        let m = a % b; let q = a / b;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a as int, b as int);
        assert(g * b > 0 && g * a == q * (g * b) + g * m && 0 <= g * m < g * b) by (nonlinear_arith) requires g > 0, b > 0, a == b * q + m, 0 <= m < b;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse((g * a) as int, (g * b) as int, q as int, (g * m) as int);
        lemma_gcd_scale(g, b, m);
        assert((g * a) % (g * b) == g * m);
    }
}
pub open spec fn divides(g: nat, a: nat) -> bool { exists|k: nat| a == #[trigger] (k * g) }
pub proof fn lemma_gcd_divides(a: nat, b: nat) ensures a + b > 0 ==> gcd(a, b) > 0, divides(gcd(a, b), a), divides(gcd(a, b), b) decreases b {
    if b == 0 { assert(a == 1nat * a); assert(0 == 0nat * a); }
    else {
        let m = a % b; let q = a / b;
        lemma_gcd_divides(b, m);
        let g = gcd(b, m); assert(gcd(a, b) == g);
        let x = choose|k: nat| b == #[trigger] (k * g); let y = choose|k: nat| m == #[trigger] (k * g);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a as int, b as int);
        assert(a == (x * q + y) * g) by (nonlinear_arith) requires a == b * q + m, b == x * g, m == y * g;
        let w = (x * q + y) as nat;
        assert(a == w * g);
    }
}
/// Multiplying numerator and denominator by the same number gives the same fraction.
pub proof fn lemma_rat_scale(g: int, n: int, d: int) requires g > 0, n >= 0, d > 0 ensures rat(g * n, g * d) == rat(n, d), g * d > 0, g * n >= 0 {
    assert(g * d > 0 && g * n >= 0) by (nonlinear_arith) requires g > 0, n >= 0, d > 0;
    lemma_gcd_scale(g as nat, n as nat, d as nat); lemma_gcd_divides(n as nat, d as nat);
    let h = gcd(n as nat, d as nat) as int;
    assert(((g as nat) * (n as nat)) as int == g * n && ((g as nat) * (d as nat)) as int == g * d);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish_quotient(g, n, h);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish_quotient(g, d, h);
}
/// The reduced form, multiplied by what was divided out, is the fraction it came from.
pub proof fn lemma_rat_parts(n: int, d: int) requires n >= 0, d > 0 ensures ({ let q = rat(n, d); let g = gcd(n as nat, d as nat) as int; g > 0 && q.n >= 0 && q.d > 0 && g * q.n == n && g * q.d == d }) {
    lemma_gcd_divides(n as nat, d as nat);
    let g = gcd(n as nat, d as nat);
    let x = choose|k: nat| (n as nat) == #[trigger] (k * g); let y = choose|k: nat| (d as nat) == #[trigger] (k * g);
    vstd::arithmetic::div_mod::lemma_div_by_multiple(x as int, g as int); vstd::arithmetic::div_mod::lemma_div_by_multiple(y as int, g as int);
    assert(n == x * g && d == y * g);
    assert(n / (g as int) == x && d / (g as int) == y);
    assert(g * x == x * g && g * y == y * g) by (nonlinear_arith);
    assert(y > 0) by (nonlinear_arith) requires y * g > 0, y >= 0;
}
pub proof fn lemma_digits_nonneg(s: Seq<char>) ensures all_digits(s) ==> digits_val(s) >= 0 decreases s.len() { if s.len() > 0 && all_digits(s) { assert(all_digits(s.drop_last())); lemma_digits_nonneg(s.drop_last()); assert(is_digit_c(s[s.len() - 1])); } }
pub proof fn lemma_digits_app(a: Seq<char>, b: Seq<char>) ensures digits_val(a + b) == digits_val(a) * ipow(10, b.len()) + digits_val(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        let c = b.drop_last();
        lemma_digits_app(a, c);
        assert((a + b).drop_last() =~= a + c); assert((a + b).last() == b.last());
        let (x, y, z) = (digits_val(a), ipow(10, c.len()), digits_val(c));
        assert(digits_val(a + b) == digits_val(a + c) * 10 + digit_of(b.last()));
        assert(ipow(10, b.len()) == 10 * y);
        assert((x * y + z) * 10 + digit_of(b.last()) == x * (10 * y) + (z * 10 + digit_of(b.last()))) by (nonlinear_arith);
    }
}
pub proof fn lemma_ipow_add(a: nat, b: nat) ensures ipow(10, a + b) == ipow(10, a) * ipow(10, b) decreases b {
    if b > 0 { lemma_ipow_add(a, (b - 1) as nat); let (x, y) = (ipow(10, a), ipow(10, (b - 1) as nat)); assert(10 * (x * y) == x * (10 * y)) by (nonlinear_arith); }
}
pub proof fn lemma_trim_digits(b: Seq<char>) ensures ({ let t = trim_end(b, '0'); t.len() <= b.len() && (all_digits(b) ==> all_digits(t)) && digits_val(b) == digits_val(t) * ipow(10, (b.len() - t.len()) as nat) }) decreases b.len() {
    if b.len() > 0 && b.last() == '0' {
        let c = b.drop_last(); let t = trim_end(b, '0');
        lemma_trim_digits(c);
        let (v, y) = (digits_val(t), ipow(10, (c.len() - t.len()) as nat));
        assert(ipow(10, (b.len() - t.len()) as nat) == 10 * y);
        assert(v * y * 10 == v * (10 * y)) by (nonlinear_arith);
        if all_digits(b) { assert(all_digits(c)) by { assert forall|i: int| 0 <= i < c.len() implies is_digit_c(#[trigger] c[i]) by { assert(is_digit_c(b[i])); } } }
    }
    else { assert(digits_val(b) * 1 == digits_val(b)) by (nonlinear_arith); }
}
/// A literal with digits a before and b after the point: what the code computes is what it denotes.
pub proof fn lemma_literal(a: Seq<char>, b: Seq<char>) requires all_digits(a), all_digits(b)
    ensures ({ let t = trim_end(b, '0'); all_digits(t) && utf8_len(t) == t.len()
        && q_add(rat(digits_val(a), 1), if t.len() == 0 { rat(0, ipow(10, 1)) } else { rat(digits_val(t), ipow(10, t.len())) }) == rat(digits_val(a + b), ipow(10, b.len())) })
{
    let t = trim_end(b, '0'); let w = digits_val(a); let m = (b.len() - t.len()) as nat;
    lemma_trim_digits(b); lemma_digits_app(a, b); lemma_digits_nonneg(a); lemma_digits_nonneg(t); axiom_utf8(t);
    lemma_ipow_pos(10, t.len()); lemma_ipow_pos(10, b.len()); lemma_ipow_pos(10, m); lemma_ipow_pos(10, 1);
    assert forall|i: int| 0 <= i < t.len() implies ((#[trigger] t[i]) as u32) < 128 by { assert(is_digit_c(t[i])); }
    lemma_rat_int(w);
    let k = if t.len() == 0 { 1nat } else { t.len() }; let v = digits_val(t); let p = ipow(10, k);
    if t.len() == 0 { assert(v == 0); }
    // what the code computes: w + v/p in lowest terms
    lemma_rat_parts(v, p);
    let q = rat(v, p); let g = gcd(v as nat, p as nat) as int;
    assert(q_add(Q { n: w, d: 1 }, q) == rat(w * q.d + q.n, q.d)) by { assert(q.n * 1 == q.n && 1 * q.d == q.d); }
    assert(w * q.d >= 0) by (nonlinear_arith) requires w >= 0, q.d > 0;
    lemma_rat_scale(g, w * q.d + q.n, q.d);
    assert(g * (w * q.d + q.n) == w * p + v) by (nonlinear_arith) requires g * q.n == v, g * q.d == p;
    assert(q_add(rat(w, 1), rat(v, p)) == rat(w * p + v, p));
    // what it denotes: the digits over the power of ten
    let n = ipow(10, b.len()); let z = ipow(10, m);
    if t.len() == 0 {
        assert(v * z == 0) by (nonlinear_arith) requires v == 0;
        lemma_rat_scale(n, w, 1); assert(n * w == w * n) by (nonlinear_arith); assert(digits_val(a + b) == w * n); assert(n * 1 == n);
        lemma_rat_scale(p, w, 1); assert(p * w == w * p) by (nonlinear_arith); assert(p * 1 == p);
    } else {
        lemma_ipow_add(t.len(), m);
        assert(n == p * z);
        assert(w * n + v * z == z * (w * p + v)) by (nonlinear_arith) requires n == p * z;
        assert(n == z * p) by (nonlinear_arith) requires n == p * z;
        assert(w * p >= 0) by (nonlinear_arith) requires w >= 0, p > 0;
        lemma_rat_scale(z, w * p + v, p);
    }
}
