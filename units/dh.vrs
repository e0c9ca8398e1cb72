//@include lib/head_fieldc.vrs
//@alias DH = jester_encryption/src/diffie_hellman.rs
impl F {
//@fn DH DiffieHellmanKeyExchangeScheme for T::generate_asymmetrical_key_pair | vis=pub nogenerics nowhere
//@sub R => VpRng
//@sub Self::PublicKey => F
//@sub Self::PrivateKey => F
//@sub Self::SharedKey => F
//@sub Self::PublicKey:: => F::
//@sub T => F
//@sub T:: => F::
//@spec
    requires can(*generator)
    ensures can(r.0), can(r.1), r.1@ == md(pow(generator@, r.0@ as nat)), final(rng).log() == old(rng).log().push((p() as nat, r.0.0@))
//@at entry
    proof { p_prime(); small_mods(); }
//@endfn
//@fn DH DiffieHellmanKeyExchangeScheme for T::generate_shared_secret | vis=pub
//@sub Self::PublicKey => F
//@sub Self::PrivateKey => F
//@sub Self::SharedKey => F
//@sub T => F
//@sub T:: => F::
//@spec
    ensures can(r), r@ == md(pow(partner_key@, private_key@ as nat))
//@at entry
    proof { p_prime(); small_mods(); }
//@endfn
}
/// E01: both sides derive the generator raised to the product of the private keys
fn exchange(rng: &mut VpRng, g: &F) -> (r: (F, F))
    requires can(*g)
    ensures r.0@ == r.1@, can(r.0),
        final(rng).log().len() == old(rng).log().len() + 2,
        r.0@ == md(pow(g@, final(rng).log()[old(rng).log().len() as int].1 * final(rng).log()[old(rng).log().len() as int + 1].1))
{
    proof { p_prime(); }
    let (a, ga) = F::generate_asymmetrical_key_pair(rng, g);
    let (b, gb) = F::generate_asymmetrical_key_pair(rng, g);
    let s1 = F::generate_shared_secret(&a, &gb);
    let s2 = F::generate_shared_secret(&b, &ga);
    proof { dh(g@, a.0@, b.0@); dh(g@, b.0@, a.0@); assert(a.0@ * b.0@ == b.0@ * a.0@) by(nonlinear_arith); }
    (s1, s2)
}
proof fn dh(g: int, a: nat, b: nat) requires p() > 1 ensures md(pow(md(pow(g, b)), a)) == md(pow(g, a * b))
{ vstd::arithmetic::power::lemma_pow_mod_noop(pow(g, b), a, p()); vstd::arithmetic::power::lemma_pow_multiplies(g, b, a); assert(a * b == b * a) by(nonlinear_arith); }
} fn main() {}
