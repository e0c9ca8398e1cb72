// ---------- polynomials over the integers, read modulo p ----------
pub open spec fn pev(c: Seq<int>, x: int) -> int decreases c.len() { if c.len() == 0 { 0 } else { pev(c.drop_last(), x) + c.last() * pow(x, (c.len() - 1) as nat) } }
pub proof fn pow0(x: int) ensures pow(x, 0) == 1 { vstd::arithmetic::power::lemma_pow0(x); }
pub proof fn pow_s(x: int, k: nat) ensures pow(x, k + 1) == x * pow(x, k) { reveal(vstd::arithmetic::power::pow); }
pub proof fn cong_pow(x: int, y: int, k: nat) requires p() > 1, cong(x, y) ensures cong(pow(x, k), pow(y, k))
{ vstd::arithmetic::power::lemma_pow_mod_noop(x, k, p()); vstd::arithmetic::power::lemma_pow_mod_noop(y, k, p()); }
pub proof fn pev_cong(c: Seq<int>, d: Seq<int>, x: int, y: int)
    requires p() > 1, c.len() == d.len(), cong(x, y), forall|k: int| 0 <= k < c.len() ==> cong(#[trigger] c[k], d[k])
    ensures cong(pev(c, x), pev(d, y))
    decreases c.len()
{ if c.len() > 0 {
    let n = (c.len() - 1) as nat;
    assert forall|k: int| 0 <= k < c.drop_last().len() implies cong(#[trigger] c.drop_last()[k], d.drop_last()[k]) by { assert(cong(c[k], d[k])); }
    pev_cong(c.drop_last(), d.drop_last(), x, y); cong_pow(x, y, n); assert(cong(c[n as int], d[n as int])); cong_mul(c.last(), d.last(), pow(x, n), pow(y, n));
    cong_add(pev(c.drop_last(), x), pev(d.drop_last(), y), c.last() * pow(x, n), d.last() * pow(y, n)); } }
/// a*c + b*d, coefficient by coefficient
pub open spec fn plin(a: int, c: Seq<int>, b: int, d: Seq<int>) -> Seq<int> { Seq::new(c.len(), |k: int| a * c[k] + b * d[k]) }
pub proof fn pev_lin(a: int, c: Seq<int>, b: int, d: Seq<int>, x: int) requires c.len() == d.len() ensures pev(plin(a, c, b, d), x) == a * pev(c, x) + b * pev(d, x) decreases c.len()
{ if c.len() > 0 {
    pev_lin(a, c.drop_last(), b, d.drop_last(), x); let n = (c.len() - 1) as nat; let e = plin(a, c, b, d);
    assert(e.drop_last() =~= plin(a, c.drop_last(), b, d.drop_last()));
    assert((a * c.last() + b * d.last()) * pow(x, n) == a * (c.last() * pow(x, n)) + b * (d.last() * pow(x, n))) by(nonlinear_arith);
    assert(a * (pev(c.drop_last(), x) + c.last() * pow(x, n)) == a * pev(c.drop_last(), x) + a * (c.last() * pow(x, n))) by(nonlinear_arith);
    assert(b * (pev(d.drop_last(), x) + d.last() * pow(x, n)) == b * pev(d.drop_last(), x) + b * (d.last() * pow(x, n))) by(nonlinear_arith); }
  else { assert(a * 0 + b * 0 == 0) by(nonlinear_arith); } }
/// the constant polynomial v with t coefficients
pub open spec fn pconst(v: int, t: nat) -> Seq<int> { Seq::new(t, |k: int| if k == 0 { v } else { 0 }) }
pub proof fn pev_const(v: int, t: nat, x: int) requires t >= 1 ensures pev(pconst(v, t), x) == v decreases t
{ let c = pconst(v, t); assert(c.drop_last() =~= pconst(v, (t - 1) as nat)); pow0(x);
  if t > 1 { pev_const(v, (t - 1) as nat, x); assert(0 * pow(x, (t - 1) as nat) == 0) by(nonlinear_arith); }
  else { assert(pev(c.drop_last(), x) == 0); assert(c.last() * pow(x, 0) == v) by(nonlinear_arith) requires c.last() == v, pow(x, 0) == 1; } }
// ---------- inverses modulo p ----------
/// every residue but zero has an inverse (p is prime): Euclid on the integers
pub proof fn inv_exists(a: int) requires md(a) != 0 ensures is_inv(md(a), inv(a)), cong(a * inv(a), 1)
{
    p_prime(); let b = md(a);
    let (s, t) = bezout(p(), b);
    lemma_gcd_prime(b);
    let r = md(t);
    assert(cong(s * p() + t * b, 1));
    inverse_from_egcd(b, t);
    cong_mod(t); cong_mul(b, b, r, t); lemma_small_mod(1, p());
    assert(is_inv(b, r)); inv_unique(a, r);
}
pub proof fn bezout(a: int, b: int) -> (r: (int, int)) requires a >= 0, b >= 0 ensures r.0 * a + r.1 * b == gcd(a, b) decreases b
{
    if b <= 0 { assert(1 * a + 0 * b == a) by(nonlinear_arith); (1, 0) } else {
        lemma_mod_le(a, b); let (s, t) = bezout(b, a % b); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
        let k = a / b;
        assert(t * a + (s - t * k) * b == s * b + t * (a % b)) by(nonlinear_arith) requires a == b * k + a % b;
        (t, s - t * k)
    }
}
pub proof fn cong_cancel(a: int, x: int, y: int) requires p() > 1, md(a) != 0, cong(a * x, a * y) ensures cong(x, y)
{
    inv_exists(a); let i = inv(a);
    cong_mul(i, i, a * x, a * y); cong_mul(a * i, 1, x, x); cong_mul(a * i, 1, y, y);
    assert(i * (a * x) == (a * i) * x && i * (a * y) == (a * i) * y) by(nonlinear_arith);
    assert(1 * x == x && 1 * y == y);
}
/// distinct numbers below p differ modulo p
pub proof fn diff_nonzero(x: int, y: int) requires 0 <= x < p(), 0 <= y < p(), x != y ensures md(x - y) != 0
{ if x > y { lemma_small_mod(x - y, p()); } else { lemma_small_mod(x - y + p(), p()); vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(x - y, p()); } }
pub proof fn pev_shift(c: Seq<int>, x: int) ensures pev(seq![0int] + c, x) == x * pev(c, x) decreases c.len()
{
    let s = seq![0int] + c;
    if c.len() == 0 { assert(s.drop_last().len() == 0); assert(pev(s.drop_last(), x) == 0); assert(0 * pow(x, 0) == 0 && x * 0 == 0) by(nonlinear_arith); }
    else {
        let n = (c.len() - 1) as nat; pev_shift(c.drop_last(), x); assert(s.drop_last() =~= seq![0int] + c.drop_last()); pow_s(x, n);
        let (a, v, q) = (pev(c.drop_last(), x), c.last(), pow(x, n));
        assert(x * a + v * (x * q) == x * (a + v * q)) by(nonlinear_arith);
    }
}
pub proof fn prime_product(x: int, y: int) requires is_prime(p()), md(x) != 0, md(y) != 0 ensures md(x * y) != 0
{ if md(x * y) == 0 { assert(x * 0 == 0); lemma_small_mod(0, p()); cong_cancel(x, y, 0); } }
