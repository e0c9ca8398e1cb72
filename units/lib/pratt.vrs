// ---------- primality certificates ----------
/// square and multiply, for the interpreter
pub open spec fn mpow(a: int, e: int, n: int) -> int decreases e when n > 0
{ if e <= 0 { 1int % n } else if e % 2 == 0 { mpow((a * a) % n, e / 2, n) } else { (a * mpow((a * a) % n, e / 2, n)) % n } }
pub open spec fn ipow(q: int, e: nat) -> int decreases e { if e == 0 { 1 } else { q * ipow(q, (e - 1) as nat) } }
pub open spec fn step_ok(n: int, f: int, q: int, e: nat, a: int, w: int, g: int) -> bool {
    n > 1 && f > 0 && q > 1 && f % q != 0 && (n - 1) % (q * 1) == 0 && (n - 1) % ipow(q, e) == 0 && g == f * ipow(q, e)
    && mpow(a, n - 1, n) == 1 && (w * (mpow(a, (n - 1) / q, n) - 1)) % n == 1
}
/// every prime divisor of n is one more than a multiple of f
#[verifier::opaque]
pub open spec fn good(n: int, f: int) -> bool { f > 0 && forall|r: int| is_prime(r) && n % r == 0 ==> #[trigger] ((r - 1) % f) == 0 }
pub proof fn mpow_is(a: int, e: int, n: int) requires n > 0, e >= 0 ensures mpow(a, e, n) == pow(a, e as nat) % n decreases e
{
    reveal(pow);
    if e > 0 {
        let h = (e / 2) as nat; let b = (a * a) % n;
        mpow_is(b, e / 2, n);
        vstd::arithmetic::power::lemma_pow_mod_noop(a * a, h, n);
        vstd::arithmetic::power::lemma_pow_multiplies(a, 2, h);
        assert(pow(a, 2) == a * a) by { assert(pow(a, 2) == a * pow(a, 1)); assert(pow(a, 1) == a * pow(a, 0)); assert(a * 1 == a); }
        assert(pow(a * a, h) == pow(a, 2 * h));
        if e % 2 != 0 {
            assert(e as nat == 2 * h + 1); assert(pow(a, (2 * h + 1) as nat) == a * pow(a, 2 * h));
            vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(a, pow(a, 2 * h), n);
        } else { assert(e as nat == 2 * h); }
    }
}
pub proof fn two_is_prime() ensures is_prime(2int)
{ assert forall|d: int| 0 < d && #[trigger] (2int % d) == 0 implies d == 1 || d == 2 by { if d > 2 { lemma_small_mod(2, d); } } }
pub proof fn good_one(n: int) ensures good(n, 1) { reveal(good); }
/// x = k m
pub proof fn divides(x: int, m: int) -> (k: int) requires m > 0, x % m == 0 ensures x == k * m
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, m); let k = x / m; assert(m * k == k * m) by(nonlinear_arith); k }
pub proof fn multiple(k: int, m: int) requires m > 0 ensures (k * m) % m == 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k, m); }
/// divisibility passes on
pub proof fn div_trans(x: int, m: int, n: int) requires m > 0, n > 0, x % m == 0, m % n == 0 ensures x % n == 0
{ let k = divides(x, m); let l = divides(m, n); assert(k * (l * n) == (k * l) * n) by(nonlinear_arith); multiple(k * l, n); }
/// congruent to one modulo n, so modulo a divisor r of n
pub proof fn mod_divisor(x: int, y: int, n: int, r: int) requires n > 0, r > 0, n % r == 0, x % n == y % n ensures x % r == y % r
{
    vstd::arithmetic::div_mod::lemma_mod_equivalence(x, y, n); div_trans(x - y, n, r);
    vstd::arithmetic::div_mod::lemma_mod_equivalence(x, y, r);
}
/// exponents that give one modulo r are closed under the greatest common divisor
pub proof fn common_exponent(a: int, r: int, x: int, y: int) -> (g: int)
    requires r > 1, x >= 0, y > 0, pow(a, x as nat) % r == 1, pow(a, y as nat) % r == 1
    ensures g > 0, x % g == 0, y % g == 0, pow(a, g as nat) % r == 1
    decreases y
{
    let m = x % y; let k = x / y;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, y);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, y);
    if m == 0 { vstd::arithmetic::div_mod::lemma_mod_self_0(y); y } else {
        assert(k >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, y); }
        assert(y * k >= 0) by(nonlinear_arith) requires y > 0, k >= 0;
        vstd::arithmetic::power::lemma_pow_adds(a, (y * k) as nat, m as nat);
        vstd::arithmetic::power::lemma_pow_multiplies(a, y as nat, k as nat);
        let b = pow(a, y as nat);
        vstd::arithmetic::power::lemma_pow_mod_noop(b, k as nat, r);
        vstd::arithmetic::power::lemma1_pow(k as nat);
        lemma_small_mod(1, r);
        assert(pow(b, k as nat) % r == 1);
        vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(pow(b, k as nat), pow(a, m as nat), r);
        assert(1 * pow(a, m as nat) == pow(a, m as nat));
        let g = common_exponent(a, r, y, m);
        let (u, v) = (divides(y, g), divides(m, g));
        assert(x == (k * u + v) * g) by(nonlinear_arith) requires x == y * k + m, y == u * g, m == v * g;
        multiple(k * u + v, g);
        g
    }
}
/// q^e divides h g and q does not divide h, so it divides g
pub proof fn prime_power(q: int, e: nat, h: int, g: int)
    requires is_prime(q), h % q != 0, ipow(q, e) > 0, (h * g) % ipow(q, e) == 0
    ensures g % ipow(q, e) == 0
    decreases e
{
    if e > 0 {
        let m = ipow(q, (e - 1) as nat);
        assert(m > 0) by(nonlinear_arith) requires q * m > 0, q > 1;
        let k = divides(h * g, q * m);
        assert(k * (q * m) == (k * m) * q) by(nonlinear_arith); multiple(k * m, q);
        euclid(q, h, g);
        let g1 = divides(g, q);
        assert(h * g1 == k * m) by(nonlinear_arith) requires h * (g1 * q) == k * (q * m), q > 1;
        multiple(k, m);
        prime_power(q, (e - 1) as nat, h, g1);
        let j = divides(g1, m);
        assert(g == j * (q * m)) by(nonlinear_arith) requires g == g1 * q, g1 == j * m;
        multiple(j, q * m);
    } else { assert(g % 1int == 0); }
}
pub proof fn good_step(n: int, f: int, q: int, e: nat, a: int, w: int, g: int)
    requires good(n, f), is_prime(q), step_ok(n, f, q, e, a, w, g)
    ensures good(n, g)
{
    reveal(good);
    let m = ipow(q, e);
    ipow_pos(q, e);
    assert(g > 0) by(nonlinear_arith) requires g == f * m, f > 0, m > 0;
    assert forall|r: int| is_prime(r) && n % r == 0 implies #[trigger] ((r - 1) % g) == 0 by {
        assert((r - 1) % f == 0);
        let e1 = n - 1; let e2 = (n - 1) / q;
        vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n - 1, q);
        mpow_is(a, e1, n); mpow_is(a, e2, n);
        lemma_small_mod(1, n); lemma_small_mod(1, r);
        mod_divisor(pow(a, e1 as nat), 1, n, r);
        // a is not zero modulo r
        assert(a % r != 0) by { if a % r == 0 { vstd::arithmetic::power::lemma_pow_mod_noop(a, e1 as nat, r); vstd::arithmetic::power::lemma0_pow(e1 as nat); lemma_small_mod(0, r); } }
        fermat(r, a);
        let c = common_exponent(a, r, e1, r - 1);
        let h = divides(e1, c);
        if h % q == 0 {
            // then a^((n-1)/q) is one modulo r, so r divides a unit
            let h1 = divides(h, q);
            assert(e2 == h1 * c) by {
                assert(e1 == (h1 * c) * q) by(nonlinear_arith) requires e1 == h * c, h == h1 * q;
                assert(h1 * c >= 0) by(nonlinear_arith) requires e1 == (h1 * c) * q, e1 >= 0, q > 1;
                vstd::arithmetic::div_mod::lemma_div_by_multiple(h1 * c, q);
            }
            assert(h1 >= 0) by(nonlinear_arith) requires e2 == h1 * c, e2 >= 0, c > 0;
            vstd::arithmetic::power::lemma_pow_multiplies(a, c as nat, h1 as nat);
            assert(c * h1 == h1 * c) by(nonlinear_arith);
            vstd::arithmetic::power::lemma_pow_mod_noop(pow(a, c as nat), h1 as nat, r);
            vstd::arithmetic::power::lemma1_pow(h1 as nat);
            let v = pow(a, e2 as nat);
            assert(v % r == 1);
            vstd::arithmetic::div_mod::lemma_mod_twice(v, n);
            mod_divisor(v % n, v, n, r);
            let y = v % n - 1;
            vstd::arithmetic::div_mod::lemma_mod_equivalence(v % n, 1, r);
            assert(y % r == 0);
            mod_divisor(w * y, 1, n, r);
            vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(w, y, r);
            assert(w * 0 == 0); lemma_small_mod(0, r);
            assert(false);
        }
        assert((h * c) % m == 0);
        prime_power(q, e, h, c);
        div_trans(r - 1, c, m);
        // f and q^e together
        let k = divides(r - 1, f);
        assert((f * k) % m == 0) by { assert(f * k == k * f) by(nonlinear_arith); }
        prime_power(q, e, f, k);
        let j = divides(k, m);
        assert(r - 1 == j * g) by(nonlinear_arith) requires r - 1 == k * f, k == j * m, g == f * m;
        multiple(j, g);
    }
}
pub proof fn ipow_pos(q: int, e: nat) requires q > 0 ensures ipow(q, e) > 0 decreases e
{ if e > 0 { ipow_pos(q, (e - 1) as nat); let m = ipow(q, (e - 1) as nat); assert(q * m > 0) by(nonlinear_arith) requires q > 0, m > 0; } }
pub proof fn prime_divisor(n: int) -> (r: int) requires n > 1 ensures is_prime(r), n % r == 0, r <= n decreases n
{
    if is_prime(n) { vstd::arithmetic::div_mod::lemma_mod_self_0(n); n } else {
        let d = choose|d: int| 0 < d && #[trigger] (n % d) == 0 && d != 1 && d != n;
        if d > n { lemma_small_mod(n, d); }
        let r = prime_divisor(d);
        div_trans(n, d, r);
        r
    }
}
pub proof fn good_end(n: int) requires n > 1, good(n, n - 1) ensures is_prime(n)
{
    reveal(good);
    let r = prime_divisor(n);
    assert((r - 1) % (n - 1) == 0);
    if r < n { lemma_small_mod(r - 1, n - 1); }
}
