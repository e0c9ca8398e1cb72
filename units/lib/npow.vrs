// ---------- num-traits pow: the source of the dependency, over the contracts of the field ----------
proof fn sq_pow(b: int, h: nat) requires p() > 1 ensures cong(pow(md(b * b), h), pow(b, 2 * h)) {
    vstd::arithmetic::power::lemma_pow_mod_noop(b * b, h, p());
    vstd::arithmetic::power::lemma_pow_multiplies(b, 2, h);
    vstd::arithmetic::power::lemma_pow1(b); vstd::arithmetic::power::lemma_pow_adds(b, 1, 1);
}
proof fn pow_pred(b: int, e: nat) requires e > 0 ensures pow(b, e) == b * pow(b, (e - 1) as nat) { reveal(pow); }
//@fn dep:num-traits/src/pow.rs pow | name=vp_pow vis=pub nogenerics nowhere
//@sub T => F
//@sub T:: => F::
//@spec
    requires can(base) ensures r@ == md(pow(base@, exp as nat)), can(r)
//@at entry
    let ghost b0 = base@; let ghost e0 = exp as nat; let ghost x = pow(b0, e0);
    proof { p_prime(); small_mods(); vstd::arithmetic::power::lemma_pow0(b0); }
//@loop 1
    invariant exp > 0, can(base), cong(pow(base@, exp as nat), x), p() > 1
    decreases exp
//@at loop 1 start
    let ghost (b1, e1) = (base@, exp);
    proof { assert(e1 & 1 == 0 ==> e1 >> 1 == e1 / 2 && e1 == 2 * (e1 / 2)) by(bit_vector); sq_pow(b1, (e1 / 2) as nat); }
//@at loop 1 after
    let ghost (b2, e2) = (base@, exp);
    proof { assert(e2 & 1 != 0 ==> e2 == 2 * (e2 / 2) + 1) by(bit_vector); pow_pred(b2, e2 as nat); vstd::arithmetic::power::lemma_pow1(b2); vstd::arithmetic::power::lemma_pow0(b2); assert(b2 % p() == b2) by { vstd::arithmetic::div_mod::lemma_small_mod(b2 as nat, p() as nat); } }
//@loop 2
    invariant exp >= 1, can(base), can(acc), cong(acc@ * pow(base@, (2 * (exp / 2)) as nat), x), p() > 1
    decreases exp
//@at loop 2 start
    let ghost (b3, e3, a3) = (base@, exp, acc@);
    proof { assert(e3 >> 1 == e3 / 2) by(bit_vector); let h = (e3 / 2) as nat; let hh = (e3 / 2) as usize; assert(hh & 1 == 1 ==> hh == 2 * (hh / 2) + 1) by(bit_vector); assert(hh & 1 != 1 ==> hh == 2 * (hh / 2)) by(bit_vector);
        sq_pow(b3, h); let s = md(b3 * b3); cong_mul(a3, a3, pow(s, h), pow(b3, 2 * h)); if h > 0 { pow_pred(s, h); let q = pow(s, (h - 1) as nat);
        cong_mod(a3 * s); cong_mul(md(a3 * s), a3 * s, q, q); assert(a3 * s * q == a3 * (s * q)) by(nonlinear_arith); } }
//@at loop 2 after
    proof { vstd::arithmetic::power::lemma_pow0(base@); assert(exp / 2 == 0); vstd::arithmetic::div_mod::lemma_small_mod(acc@ as nat, p() as nat); }
//@endfn
