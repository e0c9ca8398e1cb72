//@include lib/head_fieldc.vrs
//@include lib/numtheory.vrs
//@alias RSA = jester_encryption/src/rsa.rs
//@item RSA RSAPrivateKey pubfields=1
//@item RSA RSAPublicKey pubfields=1
pub struct RSACryptoSystem {}
impl RSACryptoSystem {
//@fn RSA AsymmetricalEncryptionScheme for RSACryptoSystem::encrypt_message | vis=pub
//@sub Self::PublicKey => RSAPublicKey<F>
//@sub P:: => F::
//@spec
    requires le_val(message@) < p(), 0 < key.n@ <= p()
    ensures is_le_of(r@, (pow(le_val(message@) as int, key.e@ as nat) % key.n@) as nat), le_val(r@) < key.n@
//@at entry
    proof { p_prime(); }
//@endfn
//@fn RSA AsymmetricalEncryptionScheme for RSACryptoSystem::decrypt_message | vis=pub
//@sub Self::PrivateKey => RSAPrivateKey<F>
//@sub P:: => F::
//@spec
    requires le_val(cipher@) < p(), 0 < key.n@ <= p()
    ensures is_le_of(r@, (pow(le_val(cipher@) as int, key.d@ as nat) % key.n@) as nat), le_val(r@) < key.n@
//@at entry
    proof { p_prime(); }
//@endfn
}
/// E02: decryption inverts encryption
fn rsa_round(e: &RSAPublicKey<F>, d: &RSAPrivateKey<F>, message: &[u8], Ghost(q1): Ghost<int>, Ghost(q2): Ghost<int>, Ghost(lambda): Ghost<int>) -> (r: Vec<u8>)
    requires is_prime(q1), is_prime(q2), q1 != q2, e.n@ == q1 * q2, d.n@ == e.n@, e.n@ <= p(),
        lambda > 0, lambda % (q1 - 1) == 0, lambda % (q2 - 1) == 0, (e.e@ * d.d@) % lambda == 1int % lambda, e.e@ * d.d@ > 0,
        le_val(message@) < e.n@
    ensures is_le_of(r@, le_val(message@))
{
    proof { p_prime(); assert(q1 * q2 > 0) by(nonlinear_arith) requires q1 > 1, q2 > 1; }
    let c = RSACryptoSystem::encrypt_message(e, message);
    let r = RSACryptoSystem::decrypt_message(d, c.as_slice());
    proof { rsa(le_val(message@) as int, q1, q2, e.e@ as nat, d.d@ as nat, lambda); }
    r
}
pub proof fn rsa(m: int, q1: int, q2: int, e: nat, d: nat, lambda: int)
    requires is_prime(q1), is_prime(q2), q1 != q2, lambda > 0, lambda % (q1 - 1) == 0, lambda % (q2 - 1) == 0, ((e * d) as int) % lambda == 1int % lambda, e * d > 0, 0 <= m < q1 * q2
    ensures pow(pow(m, e) % (q1 * q2), d) % (q1 * q2) == m
{
    let n = q1 * q2; let w = pow(m, e * d);
    assert(n > 0) by(nonlinear_arith) requires q1 > 1, q2 > 1, n == q1 * q2;
    vstd::arithmetic::power::lemma_pow_mod_noop(pow(m, e), d, n);
    vstd::arithmetic::power::lemma_pow_multiplies(m, e, d);
    rsa_half(m, q1, e * d, lambda); rsa_half(m, q2, e * d, lambda);
    // both primes divide w - m, so their product does
    vstd::arithmetic::div_mod::lemma_mod_equivalence(w, m, q1); vstd::arithmetic::div_mod::lemma_mod_equivalence(w, m, q2);
    let z = w - m;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(z, q1);
    let y = z / q1;
    if q1 % q2 == 0 { assert(q2 == 1 || q2 == q1); }
    euclid(q2, q1, y);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, q2);
    let x = y / q2;
    assert(z == x * n) by(nonlinear_arith) requires z == q1 * y, y == q2 * x, n == q1 * q2;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(x, n);
    vstd::arithmetic::div_mod::lemma_mod_equivalence(w, m, n);
    vstd::arithmetic::div_mod::lemma_small_mod(m as nat, n as nat);
}
proof fn rsa_half(m: int, q: int, x: nat, lambda: int)
    requires is_prime(q), lambda > 0, lambda % (q - 1) == 0, (x as int) % lambda == 1int % lambda, x > 0
    ensures pow(m, x) % q == m % q
{
    let g = q - 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x as int, lambda);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(1, lambda);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(lambda, g);
    let (a, b, c) = (x as int / lambda, 1int / lambda, lambda / g);
    let k = (a - b) * c;
    assert(x == 1 + k * g) by(nonlinear_arith) requires x == lambda * a + 1 - lambda * b, lambda == g * c, k == (a - b) * c;
    assert(k >= 0) by(nonlinear_arith) requires x == 1 + k * g, x > 0, g > 0;
    fermat_power(q, m, k as nat);
}
} fn main() {}
