//@include lib/head_sharing.vrs
//@include lib/poly.vrs
//@alias SHAMIR = jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
//@include lib/lagrange.vrs
//@include lib/gen_spec.vrs
//@include lib/npow.vrs
/// the shares s are evaluations, at 1, 2, .., of one polynomial with t coefficients and constant term secret
pub open spec fn shared_by(c: Seq<int>, secret: int, t: int, s: Seq<(usize, F)>) -> bool { c.len() == t && c[0] == secret && forall|k: int| 0 <= k < s.len() ==> share_of(c, #[trigger] s[k], k) }
//@fn SHAMIR ThresholdSecretSharingScheme for P::generate_shares | chain vis=pub nogenerics nowhere
//@sub R => VpRng
//@sub T => F
//@sub T:: => F::
//@sub pow => vp_pow
//@elem 1 (usize, F)
//@elem 2 (usize, F)
//@spec
    requires threshold > 1, can(*secret), count < usize::MAX
    ensures r@.len() == count, exists|c: Seq<int>| shared_by(c, secret@, threshold as int, r@)
//@at entry
    proof { p_prime(); small_mods(); }
//@loop 1
    invariant __c1@.len() == __i1 - 1, p() > 1, forall|k: int| 0 <= k < __c1@.len() ==> (#[trigger] __c1@[k]).0 == k + 1 && can(__c1@[k].1)
//@at let polynomial 1 after
    let ghost co = poly_of(polynomial@, secret@);
//@loop 2
    invariant __c2@.len() == __i2 - 1, count < usize::MAX, co == poly_of(polynomial@, secret@), p() > 1, can(*secret),
        forall|k: int| 0 <= k < polynomial@.len() ==> (#[trigger] polynomial@[k]).0 == k + 1 && can(polynomial@[k].1),
        forall|k: int| 0 <= k < __c2@.len() ==> share_of(co, #[trigger] __c2@[k], k)
//@loop 3
    invariant can(__a3), cong(__a3@, pev(co.take(__i3 + 1), x as int)), __n3 == __s3@.len(), __s3@.len() == polynomial@.len(), p() > 1, co == poly_of(polynomial@, secret@),
        forall|k: int| 0 <= k < polynomial@.len() ==> (#[trigger] polynomial@[k]).0 == k + 1 && can(polynomial@[k].1),
        forall|k: int| 0 <= k < __s3@.len() ==> (#[trigger] __s3@[k]).0 == polynomial@[k].0 && __s3@[k].1@ == polynomial@[k].1@,
//@at loop 3 before
    proof { assert forall|k: int| 0 <= k < __s3@.len() implies (#[trigger] __s3@[k]).0 == polynomial@[k].0 && __s3@[k].1@ == polynomial@[k].1@ by { clone_pair(polynomial@[k], __s3@[k]); }
        assert(co.take(1).drop_last().len() == 0); assert(pev(co.take(1).drop_last(), x as int) == 0); pow0(x as int); assert(co[0] * 1 == co[0]); }
//@at loop 3 start
    let ghost a0 = __a3@;
//@at loop 3 end
    proof {
        let e = (__i3 + 1) as nat; let xi = x as int; let xf = xi % p(); let v = co[__i3 + 1];
        assert(co.take(__i3 + 2).drop_last() =~= co.take(__i3 + 1));
        assert(polynomial@[__i3 as int].1@ == v && __s3@[__i3 as int].1@ == v);
        cong_mod(xi); cong_pow(xf, xi, e); cong_mod(pow(xf, e)); cong_trans(md(pow(xf, e)), pow(xf, e), pow(xi, e));
        cong_mul(v, v, md(pow(xf, e)), pow(xi, e)); cong_mod(v * md(pow(xf, e))); cong_trans(md(v * md(pow(xf, e))), v * md(pow(xf, e)), v * pow(xi, e));
        cong_add(a0, pev(co.take(__i3 + 1), xi), md(v * md(pow(xf, e))), v * pow(xi, e));
        cong_mod(a0 + md(v * md(pow(xf, e)))); cong_trans(__a3@, a0 + md(v * md(pow(xf, e))), pev(co.take(__i3 + 2), xi));
    }
//@at loop 3 after
    proof { assert(co.take(__n3 + 1) =~= co); lemma_small_mod(__a3@, p()); }
//@at exit
    proof { assert(shared_by(co, secret@, threshold as int, __ret@)); }
//@endfn
//@include lib/recon.vrs
// ---------- S01 ----------
/// any selection of at least threshold of the generated shares, in any order, reconstructs the secret
pub fn generate_then_reconstruct(rng: &mut VpRng, secret: &F, count: usize, threshold: usize, sel: Vec<usize>) -> (r: F)
    requires 1 < threshold <= count, count < p(), count <= isize::MAX, can(*secret), sel@.len() >= threshold,
        forall|i: int| 0 <= i < sel@.len() ==> #[trigger] sel@[i] < count, forall|i: int, j: int| 0 <= i < j < sel@.len() ==> #[trigger] sel@[i] != #[trigger] sel@[j]
    ensures r@ == secret@
{
    proof { p_prime(); }
    let shares = generate_shares(rng, secret, count, threshold);
    let ghost c = choose|c: Seq<int>| shared_by(c, secret@, threshold as int, shares@);
    let mut chosen: Vec<(usize, F)> = Vec::new();
    for i in 0..sel.len()
        invariant chosen@.len() == i, shares@.len() == count, shared_by(c, secret@, threshold as int, shares@), forall|i: int| 0 <= i < sel@.len() ==> #[trigger] sel@[i] < count,
            forall|k: int| 0 <= k < i ==> share_of(c, #[trigger] chosen@[k], sel@[k] as int)
    { let k = sel[i]; let s = (shares[k].0, shares[k].1.clone()); assert(share_of(c, shares@[k as int], k as int)); chosen.push(s); }
    proof {
        let s = first(chosen@, threshold as int); let xs = xs_of(s); let ys = ys_of(s);
        assert forall|i: int| 0 <= i < xs.len() implies 0 < #[trigger] xs[i] < p() && cong(ys[i], pev(c, xs[i])) && xs[i] == sel@[i] + 1 by { assert(s[i] == chosen@[i]); assert(share_of(c, chosen@[i], sel@[i] as int)); cong_mod(pev(c, xs[i])); }
        assert forall|i: int, j: int| 0 <= i < j < xs.len() implies #[trigger] xs[i] != #[trigger] xs[j] by { assert(sel@[i] != sel@[j]); }
        assert(nodes_ok(xs));
        lsum_poly(xs, ys, c, xs.len() as int); assert(xs.take(xs.len() as int) =~= xs); interpolate(xs, c);
        cong_trans(lsum(xs, ys, s.len() as int), wsum(xs, |x: int| pev(c, x) * lw(xs, x)), c[0]); lemma_small_mod(secret@, p());
    }
    reconstruct_secret(chosen.as_slice(), threshold)
}
} fn main() {}
