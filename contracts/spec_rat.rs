// ------------------------------------------------------------------ fractions in lowest terms
proof fn gcd_pos(a: nat, b: nat) requires a > 0 || b > 0 ensures gcd(a, b) > 0 decreases b { if b == 0 { } else { gcd_pos(b, a % b); } }
spec fn is_mul(a: int, g: int, x: int) -> bool { a == g * x }
proof fn gcd_div(a: nat, b: nat) -> (r: (int, int)) ensures is_mul(a as int, gcd(a, b) as int, r.0), is_mul(b as int, gcd(a, b) as int, r.1) decreases b {
    if b == 0 { let g = gcd(a, b) as int; assert(g == a); assert(is_mul(a as int, g, 1)) by (nonlinear_arith) requires g == a; assert(is_mul(b as int, g, 0)) by (nonlinear_arith) requires b == 0; (1, 0) } else {
        let m = (a as int % b as int) as nat;
        let (x, y) = gcd_div(b, m);
        let g = gcd(b, m) as int; let q = a as int / b as int; let ai = a as int; let bi = b as int; let mi = m as int;
        assert(ai == bi * q + mi) by (nonlinear_arith) requires bi > 0, q == ai / bi, mi == ai % bi;
        assert(ai == g * (x * q + y)) by (nonlinear_arith) requires ai == bi * q + mi, bi == g * x, mi == g * y;
        (x * q + y, x)
    }
}
proof fn gcd_greatest(a: nat, b: nat, k: int, x: int, y: int) -> (z: int) requires a == k * x, b == k * y ensures gcd(a, b) == k * z decreases b {
    if b == 0 { x } else {
        let m = (a as int % b as int) as nat;
        let q = a as int / b as int; let ai = a as int; let bi = b as int; let mi = m as int;
        assert(ai == bi * q + mi) by (nonlinear_arith) requires bi > 0, q == ai / bi, mi == ai % bi;
        assert(mi == k * (x - y * q)) by (nonlinear_arith) requires ai == bi * q + mi, ai == k * x, bi == k * y;
        gcd_greatest(b, m, k, y, x - y * q)
    }
}
/// n/d for d != 0 is a fraction in lowest terms with a positive denominator.
pub proof fn th_rat_wf(n: int, d: int) requires d != 0 ensures q_wf(rat(n, d)) {
    let a = abs_i(n) as nat; let b = abs_i(d) as nat; let g = gcd(a, b) as int;
    gcd_pos(a, b);
    let (x, y) = gcd_div(a, b);
    let ai = a as int; let bi = b as int;
    assert(x >= 0) by (nonlinear_arith) requires ai == g * x, ai >= 0, g > 0;
    assert(y > 0) by (nonlinear_arith) requires bi == g * y, bi > 0, g > 0;
    assert((g * x) / g == x) by (nonlinear_arith) requires g > 0;
    assert((-(g * x)) / g == -x) by (nonlinear_arith) requires g > 0;
    assert((g * y) / g == y) by (nonlinear_arith) requires g > 0;
    assert((-(g * y)) / g == -y) by (nonlinear_arith) requires g > 0;
    let s = if d < 0 { -1int } else { 1 };
    assert(n / g == (if n < 0 { -x } else { x }));
    assert(d / g == s * y);
    assert(s * (s * y) == y) by (nonlinear_arith) requires s == 1 || s == -1;
    let e = n / g;
    assert(s * e == e || s * e == -e) by (nonlinear_arith) requires s == 1 || s == -1;
    assert(e == x || e == -x);
    assert(abs_i(s * (n / g)) == x);
    let h = gcd(x as nat, y as nat) as int;
    let (x2, y2) = gcd_div(x as nat, y as nat);
    assert(ai == (g * h) * x2) by (nonlinear_arith) requires ai == g * x, x == h * x2;
    assert(bi == (g * h) * y2) by (nonlinear_arith) requires bi == g * y, y == h * y2;
    let z = gcd_greatest(a, b, g * h, x2, y2);
    gcd_pos(x as nat, y as nat);
    assert(h * z == 1) by (nonlinear_arith) requires g == (g * h) * z, g > 0;
    assert(h == 1) by (nonlinear_arith) requires h * z == 1, h > 0;
}
