// ---------- number theory: Bezout, Euclid's lemma, Fermat's little theorem ----------
pub proof fn bezout(a: int, b: int) -> (r: (int, int))
    requires a >= 0, b >= 0, a + b > 0
    ensures r.0 * a + r.1 * b == gcd(a, b)
    decreases b
{
    if b <= 0 { (1, 0) } else {
        lemma_mod_le(a, b);
        let (s, t) = bezout(b, a % b);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
        let k = a / b;
        assert(t * a + (s - k * t) * b == s * b + t * (a % b)) by(nonlinear_arith) requires a == b * k + a % b;
        (t, s - k * t)
    }
}
pub proof fn gcd_with_prime(q: int, x: int)
    requires is_prime(q), x % q != 0
    ensures gcd(q, x % q) == 1
{ lemma_gcd_divides(q, x % q); let g = gcd(q, x % q); assert(q % g == 0); if g == q { vstd::arithmetic::div_mod::lemma_small_mod((x % q) as nat, q as nat); } }
/// an inverse modulo a prime exists
pub proof fn inv_exists(q: int, x: int) -> (t: int)
    requires is_prime(q), x % q != 0
    ensures (t * x) % q == 1
{
    gcd_with_prime(q, x);
    let (s, t) = bezout(q, x % q);
    assert(t * (x % q) == 1 + (-s) * q) by(nonlinear_arith) requires s * q + t * (x % q) == 1;
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(-s, 1, q); assert(q * (-s) + 1 == 1 + (-s) * q) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(t, x, q);
    vstd::arithmetic::div_mod::lemma_small_mod(1, q as nat);
    t
}
/// a prime that divides a product divides a factor
pub proof fn euclid(q: int, a: int, b: int)
    requires is_prime(q), (a * b) % q == 0
    ensures a % q == 0 || b % q == 0
{
    if a % q != 0 {
        let t = inv_exists(q, a);
        // b = (t a) b = t (a b) = 0
        vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(t * a, b, q);
        vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(t, a * b, q);
        assert((t * a) * b == t * (a * b)) by(nonlinear_arith);
        assert(1 * b == b); assert(t * 0 == 0);
        vstd::arithmetic::div_mod::lemma_small_mod(0, q as nat);
    }
}
pub proof fn cancel(q: int, a: int, x: int, y: int)
    requires is_prime(q), a % q != 0, (a * x) % q == (a * y) % q
    ensures x % q == y % q
{
    vstd::arithmetic::div_mod::lemma_mod_equivalence(a * x, a * y, q);
    assert(a * x - a * y == a * (x - y)) by(nonlinear_arith);
    euclid(q, a, x - y);
    vstd::arithmetic::div_mod::lemma_mod_equivalence(x, y, q);
}
pub open spec fn sprod(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 1 } else { sprod(s.drop_last()) * s.last() } }
pub open spec fn upto(n: int) -> Seq<int> { Seq::new(n as nat, |i: int| i + 1) }
pub proof fn sprod_remove(s: Seq<int>, j: int)
    requires 0 <= j < s.len()
    ensures sprod(s) == sprod(s.remove(j)) * s[j]
    decreases s.len()
{
    if j == s.len() - 1 { assert(s.remove(j) =~= s.drop_last()); }
    else {
        let d = s.drop_last();
        sprod_remove(d, j);
        assert(s.remove(j).drop_last() =~= d.remove(j)); assert(s.remove(j).last() == s.last());
        let (a, b, c) = (sprod(d.remove(j)), s[j], s.last());
        assert((a * b) * c == (a * c) * b) by(nonlinear_arith);
    }
}
/// n distinct numbers from 1..=n multiply to n!
pub proof fn sprod_perm(s: Seq<int>, n: int)
    requires n >= 0, s.len() == n, s.no_duplicates(), forall|i: int| 0 <= i < n ==> 1 <= #[trigger] s[i] <= n
    ensures sprod(s) == sprod(upto(n))
    decreases n
{
    if n > 0 {
        if forall|i: int| 0 <= i < n ==> s[i] != n { pigeon(s, n); }
        let j = choose|i: int| 0 <= i < n && s[i] == n;
        let t = s.remove(j);
        assert forall|i: int| 0 <= i < n - 1 implies 1 <= #[trigger] t[i] <= n - 1 by { let k = if i < j { i } else { i + 1 }; assert(t[i] == s[k]); assert(s[k] != s[j]); }
        assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a] != t[b] by {
            let x = if a < j { a } else { a + 1 }; let y = if b < j { b } else { b + 1 }; assert(t[a] == s[x] && t[b] == s[y]); }
        sprod_perm(t, n - 1);
        sprod_remove(s, j);
        assert(upto(n).drop_last() =~= upto(n - 1));
    } else { assert(s =~= upto(0)); }
}
proof fn pigeon(s: Seq<int>, n: int)
    requires n > 0, s.len() == n, s.no_duplicates(), forall|i: int| 0 <= i < n ==> 1 <= #[trigger] s[i] < n
    ensures false
{
    s.unique_seq_to_set();
    let r = vstd::set_lib::set_int_range(1, n);
    vstd::set_lib::lemma_int_range(1, n);
    assert(s.to_set().subset_of(r)) by { assert forall|x: int| s.to_set().contains(x) implies r.contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(1 <= s[i] < n); } }
    vstd::set_lib::lemma_len_subset(s.to_set(), r);
}
pub open spec fn mults(a: int, q: int, n: int) -> Seq<int> { Seq::new(n as nat, |i: int| (a * (i + 1)) % q) }
proof fn mults_prod(a: int, q: int, n: int)
    requires q > 1, n >= 0
    ensures sprod(mults(a, q, n)) % q == (pow(a, n as nat) * sprod(upto(n))) % q
    decreases n
{
    vstd::arithmetic::power::lemma_pow0(a);
    if n > 0 {
        mults_prod(a, q, n - 1);
        assert(mults(a, q, n).drop_last() =~= mults(a, q, n - 1)); assert(upto(n).drop_last() =~= upto(n - 1));
        let (x, y, z) = (sprod(mults(a, q, n - 1)), pow(a, (n - 1) as nat), sprod(upto(n - 1)));
        reveal(pow);
        assert(pow(a, n as nat) == a * y);
        vstd::arithmetic::div_mod::lemma_mul_mod_noop(x, (a * n) % q, q);
        vstd::arithmetic::div_mod::lemma_mod_twice(a * n, q);
        vstd::arithmetic::div_mod::lemma_mul_mod_noop(y * z, a * n, q);
        assert((y * z) * (a * n) == (a * y) * (z * n)) by(nonlinear_arith);
    } else { assert(mults(a, q, 0) =~= Seq::empty()); assert(upto(0) =~= Seq::empty()); }
}
proof fn fact_nonzero(q: int, n: int)
    requires is_prime(q), 0 <= n < q
    ensures sprod(upto(n)) % q != 0
    decreases n
{
    if n > 0 {
        fact_nonzero(q, n - 1);
        assert(upto(n).drop_last() =~= upto(n - 1));
        if (sprod(upto(n - 1)) * n) % q == 0 { euclid(q, sprod(upto(n - 1)), n); vstd::arithmetic::div_mod::lemma_small_mod(n as nat, q as nat); }
    } else { assert(upto(0) =~= Seq::empty()); vstd::arithmetic::div_mod::lemma_small_mod(1, q as nat); }
}
pub proof fn fermat(q: int, a: int)
    requires is_prime(q), a % q != 0
    ensures pow(a, (q - 1) as nat) % q == 1
{
    let s = mults(a, q, q - 1);
    assert forall|i: int| 0 <= i < q - 1 implies 1 <= #[trigger] s[i] <= q - 1 by {
        lemma_mod_pos(a * (i + 1), q);
        if s[i] == 0 { euclid(q, a, i + 1); vstd::arithmetic::div_mod::lemma_small_mod((i + 1) as nat, q as nat); } }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
        if s[i] == s[j] { cancel(q, a, i + 1, j + 1); vstd::arithmetic::div_mod::lemma_small_mod((i + 1) as nat, q as nat); vstd::arithmetic::div_mod::lemma_small_mod((j + 1) as nat, q as nat); } }
    sprod_perm(s, q - 1);
    mults_prod(a, q, q - 1);
    let f = sprod(upto(q - 1)); let w = pow(a, (q - 1) as nat);
    fact_nonzero(q, q - 1);
    assert(w * f == f * w) by(nonlinear_arith);
    cancel(q, f, 1, w);
    vstd::arithmetic::div_mod::lemma_small_mod(1, q as nat);
}
pub proof fn lemma_mod_pos(a: int, q: int) requires q > 0 ensures 0 <= a % q < q { vstd::arithmetic::div_mod::lemma_mod_bound(a, q); }
/// a^(1 + k (q-1)) = a modulo a prime q, for every a
pub proof fn fermat_power(q: int, a: int, k: nat)
    requires is_prime(q)
    ensures pow(a, (1 + k * (q - 1)) as nat) % q == a % q
{
    let e = (k * (q - 1)) as nat;
    assert(k * (q - 1) >= 0) by(nonlinear_arith) requires k >= 0, q > 1;
    reveal(pow); assert(pow(a, 1 + e) == a * pow(a, e));
    if a % q == 0 {
        vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(a, pow(a, e), q); assert(0 * pow(a, e) == 0);
        vstd::arithmetic::div_mod::lemma_small_mod(0, q as nat);
    } else {
        fermat(q, a);
        vstd::arithmetic::power::lemma_pow_multiplies(a, (q - 1) as nat, k);
        assert((q - 1) * k == k * (q - 1)) by(nonlinear_arith);
        let w = pow(a, (q - 1) as nat);
        vstd::arithmetic::power::lemma_pow_mod_noop(w, k, q);
        vstd::arithmetic::power::lemma1_pow(k);
        vstd::arithmetic::div_mod::lemma_small_mod(1, q as nat);
        vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(a, pow(a, e), q);
        assert(a * 1 == a);
    }
}
