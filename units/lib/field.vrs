// ---------- the prime field type that prime_fields! generates, for a symbolic prime ----------
//@alias FIELD = jester_maths/src/prime.rs#prime_fields(v=pub;name=F;prime=vp_lit();radix=vp_radix())
//@alias PRIME = jester_maths/src/prime.rs
//@gsub PRIME_NUMBER_F => prime_number_F()
//@gsub crate::prime::num_bigint:: => 
//@gsub ::num::bigint:: => 
//@gsub num::bigint:: => 
//@gsub ::num:: => 
//@gsub num:: => 
pub uninterp spec fn lit() -> Seq<char>;
pub uninterp spec fn radix() -> int;
/// the prime the literals of this instance denote
pub open spec fn p() -> int { digits(lit(), radix()).unwrap() as int }
pub open spec fn is_prime(n: int) -> bool { n > 1 && forall|d: int| 0 < d && #[trigger] (n % d) == 0 ==> d == 1 || d == n }
#[verifier::external_body] // the literals of every instance denote a prime: checked by the replay harness (Miller-Rabin), not proved
pub proof fn p_prime() ensures is_prime(p()), digits(lit(), radix()).is_some(), 2 <= radix() <= 36 {}
#[verifier::external_body] // stands for the string literal of the instance
pub fn vp_lit() -> (r: &'static str) ensures r@ == lit() { unimplemented!() }
#[verifier::external_body] // stands for the radix literal of the instance
pub fn vp_radix() -> (r: u32) ensures r == radix() { unimplemented!() }
//@item FIELD F pubfields=1 needs=Clone,PartialEq,PartialOrd
impl F { pub open spec fn view(&self) -> int { self.0@ as int } }
/// canonical elements
pub open spec fn can(a: F) -> bool { a@ < p() }
pub open spec fn md(x: int) -> int { x % p() }
// what the derived impls of a struct with one field do (that they are derived is checked by vx)
impl Clone for F { fn clone(&self) -> (r: F) ensures r@ == self@ { F(self.0.clone()) } }
impl PartialEqSpecImpl<F> for F { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F) -> bool { self@ == o@ } }
impl core::cmp::PartialEq<F> for F { fn eq(&self, o: &F) -> bool { self.0 == o.0 } }
impl PartialOrdSpecImpl<F> for F { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &F) -> Option<core::cmp::Ordering> { Some(nat_cmp(self.0@, o.0@)) } }
impl core::cmp::PartialOrd<F> for F { fn partial_cmp(&self, o: &F) -> Option<core::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
#[verifier::external_body] // once_cell Lazy: dereferencing yields the initializer's value (vp_prime_init below)
pub fn prime_number_F() -> (r: &'static F) ensures r@ == p() { unimplemented!() }
//@fn FIELD static PRIME_NUMBER_F | name=vp_prime_init vis=pub
//@sub num::Num::from_str_radix => BigUint::from_str_radix
//@spec
    ensures r@ == p()
//@at entry
    proof { p_prime(); }
//@endfn
impl AddSpecImpl<F> for F { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, rhs: F) -> bool { true } open spec fn add_spec(self, rhs: F) -> F { arbitrary() } }
impl core::ops::Add<F> for F { type Output = F;
//@fn FIELD Add for F::add
//@spec
    ensures r@ == md(self@ + rhs@), can(r)
//@at entry
    proof { p_prime(); mod_forms(self@ + rhs@); }
//@endfn
}
impl SubSpecImpl<F> for F { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, rhs: F) -> bool { rhs@ <= p() } open spec fn sub_spec(self, rhs: F) -> F { arbitrary() } }
impl core::ops::Sub<F> for F { type Output = F;
//@fn FIELD Sub for F::sub
//@spec
    ensures r@ == md(self@ - rhs@), can(r)
    decreases (if self@ >= rhs@ { 0int } else { 1int })
//@at entry
    proof { p_prime(); lemma_sub_wrap(self@ as int, rhs@ as int); mod_forms(self@ - rhs@); }
//@endfn
}
impl MulSpecImpl<F> for F { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, rhs: F) -> bool { true } open spec fn mul_spec(self, rhs: F) -> F { arbitrary() } }
impl core::ops::Mul<F> for F { type Output = F;
//@fn FIELD Mul for F::mul
//@spec
    ensures r@ == md(self@ * rhs@), can(r)
//@at entry
    proof { p_prime(); mod_forms(self@ * rhs@); assert(self@ == 0 || rhs@ == 0 ==> self@ * rhs@ == 0) by(nonlinear_arith); assert(self@ * rhs@ == rhs@ * self@) by(nonlinear_arith);
        assert(self@ == 1 ==> self@ * rhs@ == rhs@) by(nonlinear_arith); assert(rhs@ == 1 ==> self@ * rhs@ == self@) by(nonlinear_arith); }
//@endfn
}
impl DivSpecImpl<F> for F { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, rhs: F) -> bool { rhs@ != 0 } open spec fn div_spec(self, rhs: F) -> F { arbitrary() } }
impl core::ops::Div<F> for F { type Output = F;
//@fn FIELD Div for F::div
//@spec
    ensures r@ == md(self@ / rhs@), can(r)
//@at entry
    proof { p_prime(); }
//@endfn
}
impl RemSpecImpl<F> for F { open spec fn obeys_rem_spec() -> bool { false } open spec fn rem_req(self, rhs: F) -> bool { rhs@ != 0 } open spec fn rem_spec(self, rhs: F) -> F { arbitrary() } }
impl core::ops::Rem<F> for F { type Output = F;
//@fn FIELD Rem for F::rem
//@spec
    ensures r@ == self@ % rhs@
//@endfn
}
impl Zero for F { open spec fn zv(&self) -> nat { self.0@ }
//@fn FIELD Zero for F::zero
//@endfn
//@fn FIELD Zero for F::is_zero
//@endfn
}
impl One for F { open spec fn ov(&self) -> nat { self.0@ }
//@fn FIELD One for F::one
//@endfn
//@fn FIELD One for F::is_one | nowhere
//@endfn
}
impl FromSpecImpl<BigUint> for F { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: BigUint) -> F { arbitrary() } }
impl core::convert::From<BigUint> for F {
//@fn FIELD From<crate::prime::num_bigint::BigUint> for F::from
//@spec
    ensures r@ == v@ as int % p(), can(r)
//@at entry
    proof { p_prime(); }
//@endfn
}
impl FromSpecImpl<F> for BigUint { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: F) -> BigUint { arbitrary() } }
impl core::convert::From<F> for BigUint {
//@fn FIELD From<F> for BigUint::from
//@spec
    ensures r@ == v.0@
//@endfn
}
impl F {
//@fn FIELD Num for F::from_str_radix | vis=pub
//@param str => &str
//@sub Result<Self,Self::FromStrRadixErr> => Result<F, ParseBigIntError>
//@spec
    requires 2 <= radix <= 36
    ensures r.is_ok() == digits(str@, radix as int).is_some(), r.is_ok() ==> r.unwrap()@ == md(digits(str@, radix as int).unwrap() as int) && can(r.unwrap())
//@at entry
    proof { p_prime(); assert forall|b: int| #[trigger] pow(b, 1) == b by { vstd::arithmetic::power::lemma_pow1(b); } }
//@closure 1
    -> (c: F) ensures c@ == i@ as int % p()
//@endfn
//@fn FIELD FromPrimitive for F::from_i64 | vis=pub
//@spec
    ensures r.is_some(), r.unwrap()@ == md(n as int), can(r.unwrap())
//@at entry
    proof { p_prime(); vstd::arithmetic::div_mod::lemma_sub_mod_noop_right(p(), -n as int, p()); vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(n as int, p()); }
//@closure 1
    -> (c: F) ensures c@ == md(p() - (a@ as int % p()))
//@closure 2
    -> (c: F) ensures c@ == o@ as int % p()
//@endfn
//@fn FIELD FromPrimitive for F::from_u64 | vis=pub
//@spec
    ensures r.is_some(), r.unwrap()@ == md(n as int), can(r.unwrap())
//@at entry
    proof { p_prime(); }
//@closure 1
    -> (c: F) ensures c@ == o@ as int % p()
//@endfn
//@fn FIELD Sum for F::sum | vis=pub nogenerics nowhere
//@param iter => Vec<F>
//@spec
    ensures r@ == md(fsum(iter@)), can(r)
//@at entry
    proof { p_prime(); small_mods(); }
    let ghost s = iter@;
//@loop 1
    @it it
    invariant it.seq() == s, tmp@ == md(fsum(s.take(it.index() as int))), can(tmp), p() > 1
//@at loop 1 start
    let ghost t0 = tmp@; let ghost k = it.index() as int;
    proof { assert(s.take(k + 1).drop_last() =~= s.take(k)); cong_mod(fsum(s.take(k))); cong_add(t0, fsum(s.take(k)), x@, x@); }
//@at exit
    proof { assert(s.take(s.len() as int) =~= s); }
//@endfn
//@fn FIELD Product for F::product | vis=pub nogenerics nowhere
//@param iter => Vec<F>
//@spec
    ensures r@ == md(fprod(iter@)), can(r)
//@at entry
    proof { p_prime(); small_mods(); }
    let ghost s = iter@;
//@loop 1
    @it it
    invariant it.seq() == s, tmp@ == md(fprod(s.take(it.index() as int))), can(tmp), p() > 1
//@at loop 1 start
    let ghost t0 = tmp@; let ghost k = it.index() as int;
    proof { assert(s.take(k + 1).drop_last() =~= s.take(k)); cong_mod(fprod(s.take(k))); cong_mul(t0, fprod(s.take(k)), x@, x@); }
//@at exit
    proof { assert(s.take(s.len() as int) =~= s); }
//@endfn
//@fn FIELD PrimeField for F::field_prime | vis=pub
//@spec
    ensures r@ == p()
//@endfn
//@fn FIELD PrimeField for F::as_uint | vis=pub
//@spec
    ensures r@ == self.0@
//@endfn
//@fn PRIME trait PrimeField::pow | vis=pub
//@spec
    ensures r@ == md(pow(self@, exponent@ as nat)), can(r)
//@at entry
    proof { p_prime(); small_mods(); }
//@endfn
//@fn PRIME trait PrimeField::modpow | vis=pub
//@spec
    requires 0 < modulus@ <= p()
    ensures r@ == pow(self@, exponent@ as nat) % modulus@, r@ < modulus@, can(r)
//@at entry
    proof { p_prime(); small_mods(); }
//@endfn
//@fn PRIME trait PrimeField::inverse | vis=pub
//@spec
    requires can(*self)
    ensures can(r), self@ != 0 ==> md(self@ * r@) == 1 && r@ == inv(self@)
//@at entry
    proof { p_prime(); }
//@at exit
    proof { if self@ != 0 { lemma_gcd_prime(self@); inverse_from_egcd(self@, __ret@); lemma_small_mod(self@, p()); inv_unique(self@, __ret@); } }
//@endfn
//@fn PRIME trait PrimeField::extended_greatest_common_divisor | vis=pub
//@spec
    requires a@ <= p(), b@ <= p()
    ensures r.0@ == gcd(a@, b@), can(r.1), can(r.2), cong(r.1@ * a@ + r.2@ * b@, r.0@)
    decreases b@
//@at entry
    proof { p_prime(); }
    let ghost ga = a@; let ghost gb = b@;
    proof { assert(1 * ga + 0 * gb == ga); if gb > 0 { lemma_mod_le(ga, gb); } }
//@at let delta 1 after
    proof { lemma_egcd_step(ga, gb, (ga / gb) % p(), s@, t@, d@, delta@, (s@ - delta@) % p()); }
//@endfn
//@fn PRIME trait PrimeField::generate_random_member | vis=pub nogenerics nowhere
//@sub R => VpRng
//@spec
    ensures can(r), final(rng).log() == old(rng).log().push((p() as nat, r.0@))
//@at entry
    proof { p_prime(); small_mods(); }
//@endfn
//@fn PRIME trait PrimeField::from_bytes_le | vis=pub
//@spec
    ensures r.is_some() == (le_val(bytes@) < p()), r.is_some() ==> r.unwrap()@ == le_val(bytes@)
//@at entry
    proof { p_prime(); small_mods(); }
//@endfn
//@fn PRIME trait PrimeField::from_bytes_be | vis=pub
//@spec
    ensures r.is_some() == (le_val(rev(bytes@)) < p()), r.is_some() ==> r.unwrap()@ == le_val(rev(bytes@))
//@at entry
    proof { p_prime(); small_mods(); }
//@endfn
//@fn PRIME trait PrimeField::as_bytes_le | vis=pub
//@spec
    ensures is_le_of(r@, self.0@)
//@endfn
//@fn PRIME trait PrimeField::as_bytes_be | vis=pub
//@spec
    ensures is_le_of(rev(r@), self.0@)
//@endfn
}
// ---------- arithmetic lemmas ----------
pub open spec fn fsum(s: Seq<F>) -> int decreases s.len() { if s.len() == 0 { 0 } else { fsum(s.drop_last()) + s.last()@ } }
pub open spec fn fprod(s: Seq<F>) -> int decreases s.len() { if s.len() == 0 { 1 } else { fprod(s.drop_last()) * s.last()@ } }
pub open spec fn cong(a: int, b: int) -> bool { a % p() == b % p() }
// ---------- inverses modulo p ----------
pub open spec fn is_inv(a: int, r: int) -> bool { 0 <= r < p() && md(a * r) == 1 }
/// the inverse of a modulo p
pub open spec fn inv(a: int) -> int { choose|r: int| is_inv(md(a), r) }
pub proof fn inv_unique(a: int, r: int) requires p() > 1, is_inv(md(a), r) ensures inv(a) == r, cong(a * inv(a), 1)
{
    let q = inv(a); let b = md(a);
    assert(is_inv(b, q));
    // q = q (b r) = (q b) r = r
    lemma_small_mod(1, p());
    cong_mul(q, q, b * r, 1); cong_mul(b * q, 1, r, r);
    assert(q * (b * r) == (b * q) * r) by(nonlinear_arith);
    assert(q * 1 == q && 1 * r == r);
    cong_trans(q, q * (b * r), r); lemma_small_mod(q, p()); lemma_small_mod(r, p());
    cong_mod(a); cong_mul(b, a, q, q); cong_trans(a * q, b * q, 1);
}
pub open spec fn gcd(a: int, b: int) -> int decreases b { if b <= 0 { a } else { gcd(b, a % b) } }
pub proof fn lemma_small_mod(x: int, m: int) requires 0 <= x < m ensures x % m == x { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, m as nat); }
pub proof fn small_mods() ensures forall|x: int| 0 <= x < p() ==> #[trigger] (x % p()) == x { assert forall|x: int| 0 <= x < p() implies #[trigger] (x % p()) == x by { lemma_small_mod(x, p()); } }
pub proof fn lemma_mod_le(a: int, b: int) requires a >= 0, b > 0 ensures 0 <= a % b < b, a % b <= a { vstd::arithmetic::div_mod::lemma_mod_decreases(a as nat, b as nat); }
pub proof fn lemma_sub_wrap(a: int, b: int) requires a >= 0, 0 <= b <= p(), p() > 1
    ensures a < b ==> (a + ((p() - b) % p())) % p() == (a - b) % p()
{ let m = p();
  vstd::arithmetic::div_mod::lemma_add_mod_noop_right(a, m - b, m);
  vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(a - b, m); }
/// the extended Euclidean step
pub proof fn lemma_egcd_step(a: int, b: int, q: int, s: int, t: int, d: int, delta: int, r: int)
    requires p() > 1, b > 0, cong(s * b + t * (a % b), d), q == (a / b) % p(), delta == (q * t) % p(), r == (s - delta) % p()
    ensures cong(t * a + r * b, d)
{
    let m = p();
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
    let k = a / b;
    // r*b == (s - k t) b (mod m)
    cong_mod(k); cong_mul(q, k, t, t); cong_mod(q * t); cong_trans(delta, q * t, k * t);
    cong_sub(s, s, delta, k * t); cong_mod(s - delta); cong_trans(r, s - delta, s - k * t); cong_mul(r, s - k * t, b, b);
    cong_add(t * a, t * a, r * b, (s - k * t) * b);
    assert(t * a + (s - k * t) * b == s * b + t * (a % b)) by(nonlinear_arith) requires a == b * k + a % b;
    cong_trans(t * a + r * b, s * b + t * (a % b), d);
}
/// the ways to reduce a value that is less than one prime out of range
pub proof fn mod_forms(x: int) requires p() > 1
    ensures 0 <= x < p() ==> x % p() == x, p() <= x < 2 * p() ==> x % p() == x - p(), -p() <= x < 0 ==> x % p() == x + p(), x % p() == (x + p()) % p(), x % p() == (x - p()) % p(), (x % p()) % p() == x % p()
{
    vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(x, p()); vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(x, p());
    vstd::arithmetic::div_mod::lemma_mod_twice(x, p());
    if 0 <= x < p() { lemma_small_mod(x, p()); }
    if p() <= x < 2 * p() { lemma_small_mod(x - p(), p()); }
    if -p() <= x < 0 { lemma_small_mod(x + p(), p()); }
}
pub proof fn cong_mod(a: int) requires p() > 1 ensures cong(a % p(), a) { vstd::arithmetic::div_mod::lemma_mod_twice(a, p()); }
pub proof fn cong_trans(a: int, b: int, c: int) requires cong(a, b), cong(b, c) ensures cong(a, c) {}
pub proof fn cong_add(a: int, a2: int, b: int, b2: int) requires p() > 1, cong(a, a2), cong(b, b2) ensures cong(a + b, a2 + b2)
{ vstd::arithmetic::div_mod::lemma_add_mod_noop(a, b, p()); vstd::arithmetic::div_mod::lemma_add_mod_noop(a2, b2, p()); }
pub proof fn cong_sub(a: int, a2: int, b: int, b2: int) requires p() > 1, cong(a, a2), cong(b, b2) ensures cong(a - b, a2 - b2)
{ vstd::arithmetic::div_mod::lemma_sub_mod_noop(a, b, p()); vstd::arithmetic::div_mod::lemma_sub_mod_noop(a2, b2, p()); }
pub proof fn cong_mul(a: int, a2: int, b: int, b2: int) requires p() > 1, cong(a, a2), cong(b, b2) ensures cong(a * b, a2 * b2)
{ vstd::arithmetic::div_mod::lemma_mul_mod_noop(a, b, p()); vstd::arithmetic::div_mod::lemma_mul_mod_noop(a2, b2, p()); }
/// the greatest common divisor divides both arguments
pub proof fn lemma_gcd_divides(a: int, b: int)
    requires a >= 0, b >= 0, a + b > 0
    ensures gcd(a, b) > 0, a % gcd(a, b) == 0, b % gcd(a, b) == 0
    decreases b
{
    if b > 0 {
        lemma_mod_le(a, b); lemma_gcd_divides(b, a % b);
        let g = gcd(b, a % b); let k = a / b; let x = b / g; let y = (a % b) / g;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, g);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a % b, g);
        assert(a == g * (x * k + y)) by(nonlinear_arith) requires a == b * k + a % b, b == g * x, a % b == g * y;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(x * k + y, g);
        assert(g * (x * k + y) == (x * k + y) * g) by(nonlinear_arith);
    } else { vstd::arithmetic::div_mod::lemma_mod_self_0(a); vstd::arithmetic::div_mod::lemma_small_mod(0, a as nat); }
}
/// a non-zero canonical element is coprime to the prime
pub proof fn lemma_gcd_prime(x: int)
    requires is_prime(p()), 0 < x < p()
    ensures gcd(p(), x) == 1
{ lemma_gcd_divides(p(), x); let g = gcd(p(), x); assert(p() % g == 0); if g == p() { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, p() as nat); } }
pub proof fn inverse_from_egcd(x: int, t: int)
    requires p() > 1, exists|s: int| cong(#[trigger] (s * p()) + t * x, 1)
    ensures md(x * t) == 1
{
    let s = choose|s: int| cong(#[trigger] (s * p()) + t * x, 1);
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(s, t * x, p());
    assert(p() * s + t * x == s * p() + t * x) by(nonlinear_arith);
    assert(t * x == x * t) by(nonlinear_arith);
    lemma_small_mod(1, p());
}
