//@include lib/head_sharing.vrs
//@include lib/poly.vrs
//@alias SHAMIR = jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
//@include lib/gen_spec.vrs
//@include lib/npow.vrs
/// n fresh draws, each uniform over the field, and nothing else was drawn
pub open spec fn drew(l0: Seq<(nat, nat)>, l1: Seq<(nat, nat)>, n: int) -> bool {
    l1.len() == l0.len() + n && l1.take(l0.len() as int) == l0 && forall|k: int| l0.len() <= k < l1.len() ==> (#[trigger] l1[k]).0 == p() && l1[k].1 < p()
}
/// the polynomial of a sharing: the secret, then the draws
pub open spec fn coeffs(secret: int, l0: Seq<(nat, nat)>, l1: Seq<(nat, nat)>) -> Seq<int> { Seq::new((1 + l1.len() - l0.len()) as nat, |k: int| if k == 0 { secret } else { l1[l0.len() + k - 1].1 as int }) }
/// a share is an evaluation of the polynomial at its index, never at zero
pub open spec fn lies_on(c: Seq<int>, s: (usize, F)) -> bool { 0 < s.0 < p() && can(s.1) && s.1@ == md(pev(c, s.0 as int)) }
pub open spec fn distinct(s: Seq<(usize, F)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
//@fn SHAMIR ThresholdSecretSharingScheme for P::generate_shares | chain vis=pub nogenerics nowhere
//@sub R => VpRng
//@sub T => F
//@sub T:: => F::
//@sub pow => vp_pow
//@elem 1 (usize, F)
//@elem 2 (usize, F)
//@spec
    requires threshold > 1, can(*secret), count < usize::MAX, count < p()
    ensures drew(old(rng).log(), final(rng).log(), threshold - 1), r@.len() == count, distinct(r@),
        forall|k: int| 0 <= k < r@.len() ==> lies_on(coeffs(secret@, old(rng).log(), final(rng).log()), #[trigger] r@[k])
//@at entry
    proof { p_prime(); small_mods(); }
    let ghost l0 = rng.log();
//@loop 1
    invariant __c1@.len() == __i1 - 1, drew(l0, rng.log(), __i1 - 1), p() > 1,
        forall|k: int| 0 <= k < __c1@.len() ==> (#[trigger] __c1@[k]).0 == k + 1 && can(__c1@[k].1) && rng.log()[l0.len() + k].1 == __c1@[k].1@
//@at loop 1 start
    let ghost lb = rng.log(); let ghost cb = __c1@;
//@at loop 1 end
    proof { assert(rng.log().take(l0.len() as int) =~= lb.take(l0.len() as int)); 
        assert forall|k: int| 0 <= k < __c1@.len() implies (#[trigger] __c1@[k]).0 == k + 1 && can(__c1@[k].1) && rng.log()[l0.len() + k].1 == __c1@[k].1@ by { if k < cb.len() { assert(__c1@[k] == cb[k]); assert(lb[l0.len() + k] == rng.log()[l0.len() + k]); } } }
//@at loop 1 before
    proof { assert(rng.log().take(l0.len() as int) =~= l0); }
//@at let polynomial 1 after
    let ghost co = coeffs(secret@, l0, rng.log());
    proof { assert(co =~= poly_of(polynomial@, secret@)); }
//@loop 2
    invariant __c2@.len() == __i2 - 1, forall|k: int| 0 <= k < __c2@.len() ==> (#[trigger] __c2@[k]).0 == k + 1, count < usize::MAX, count < p(), co == poly_of(polynomial@, secret@), p() > 1, can(*secret),
        forall|k: int| 0 <= k < polynomial@.len() ==> (#[trigger] polynomial@[k]).0 == k + 1 && can(polynomial@[k].1),
        forall|k: int| 0 <= k < __c2@.len() ==> lies_on(co, #[trigger] __c2@[k])
//@loop 3
    invariant can(__a3), cong(__a3@, pev(co.take(__i3 + 1), x as int)), __n3 == __s3@.len(), __s3@.len() == polynomial@.len(), p() > 1, co == poly_of(polynomial@, secret@),
        forall|k: int| 0 <= k < polynomial@.len() ==> (#[trigger] polynomial@[k]).0 == k + 1 && can(polynomial@[k].1),
        forall|k: int| 0 <= k < __s3@.len() ==> (#[trigger] __s3@[k]).0 == polynomial@[k].0 && __s3@[k].1@ == polynomial@[k].1@,
//@at loop 3 before
    proof { assert forall|k: int| 0 <= k < __s3@.len() implies (#[trigger] __s3@[k]).0 == polynomial@[k].0 && __s3@[k].1@ == polynomial@[k].1@ by { clone_pair(polynomial@[k], __s3@[k]); }
        assert(co.take(1).drop_last().len() == 0); assert(pev(co.take(1).drop_last(), x as int) == 0); pow0(x as int); assert(co[0] * 1 == co[0]); }
//@at loop 3 start
    let ghost a0 = __a3@;
//@at loop 3 end
    proof {
        let e = (__i3 + 1) as nat; let xi = x as int; let xf = xi % p(); let v = co[__i3 + 1];
        assert(co.take(__i3 + 2).drop_last() =~= co.take(__i3 + 1));
        assert(polynomial@[__i3 as int].1@ == v && __s3@[__i3 as int].1@ == v);
        cong_mod(xi); cong_pow(xf, xi, e); cong_mod(pow(xf, e)); cong_trans(md(pow(xf, e)), pow(xf, e), pow(xi, e));
        cong_mul(v, v, md(pow(xf, e)), pow(xi, e)); cong_mod(v * md(pow(xf, e))); cong_trans(md(v * md(pow(xf, e))), v * md(pow(xf, e)), v * pow(xi, e));
        cong_add(a0, pev(co.take(__i3 + 1), xi), md(v * md(pow(xf, e))), v * pow(xi, e));
        cong_mod(a0 + md(v * md(pow(xf, e)))); cong_trans(__a3@, a0 + md(v * md(pow(xf, e))), pev(co.take(__i3 + 2), xi));
    }
//@at loop 3 after
    proof { assert(co.take(__n3 + 1) =~= co); lemma_small_mod(__a3@, p()); }
//@endfn
//@include lib/secrecy.vrs
/// whatever the generator drew, and whichever fewer than threshold shares are seen: for every other secret there is
/// a run with draws just as likely (the shifted ones) that gives the very same shares
pub fn generate_then_hide(rng: &mut VpRng, secret: &F, count: usize, threshold: usize, seen: Vec<usize>, other: Ghost<int>) -> (r: Vec<(usize, F)>)
    requires 1 < threshold, count < usize::MAX, count < p(), can(*secret), seen@.len() < threshold, forall|i: int| 0 <= i < seen@.len() ==> #[trigger] seen@[i] < count, 0 <= other@ < p()
    ensures ({
        let c = coeffs(secret@, old(rng).log(), final(rng).log()); let xs = Seq::new(seen@.len(), |i: int| r@[seen@[i] as int].0 as int); let t = threshold as nat;
        let c2 = move_by(c, shift_of(xs, t, secret@, other@));
        &&& choice(c, t, secret@) && choice(c2, t, other@)
        &&& forall|i: int| 0 <= i < seen@.len() ==> lies_on(c, r@[#[trigger] seen@[i] as int]) && lies_on(c2, r@[seen@[i] as int])
        &&& move_by(c2, shift_of(xs, t, other@, secret@)) == c
    })
{
    proof { p_prime(); }
    let r = generate_shares(rng, secret, count, threshold);
    proof {
        let ghost c = coeffs(secret@, old(rng).log(), rng.log()); let xs = Seq::new(seen@.len(), |i: int| r@[seen@[i] as int].0 as int); let t = threshold as nat;
        assert forall|k: int| 0 <= k < t implies 0 <= #[trigger] c[k] < p() by { if k > 0 { let q = old(rng).log().len() + k - 1; assert(rng.log()[q].1 < p()); } }
        assert forall|j: int| 0 <= j < xs.len() implies 0 < #[trigger] xs[j] < p() && lies_on(c, r@[seen@[j] as int]) by { assert(lies_on(c, r@[seen@[j] as int])); }
        secrecy(xs, t, secret@, other@, c);
        let c2 = move_by(c, shift_of(xs, t, secret@, other@));
        assert forall|i: int| 0 <= i < seen@.len() implies lies_on(c, r@[#[trigger] seen@[i] as int]) && lies_on(c2, r@[seen@[i] as int]) by { assert(0 < xs[i]); }
    }
    r
}
} fn main() {}
