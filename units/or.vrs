//@include lib/head_sharing.vrs
//@include lib/poly.vrs
//@include lib/protocol.vrs
//@include lib/mult.vrs contracts mult
//@include lib/jrand.vrs contracts jrand
//@include lib/inversion.vrs contracts inversion
//@include lib/vandermonde.vrs
//@include lib/or_math.vrs
pub open spec fn bits_of(s: Seq<Sh>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).sec() == 0 || s[i].sec() == 1 }
pub open spec fn some_one(s: Seq<Sh>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).sec() == 1 }
pub open spec fn no_zero(s: Seq<Sh>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).sec() != 0 }
/// the masks drawn in two rounds, hs and then ms
pub open spec fn two_rounds(a: Pr, b: Pr, hs: Seq<Sh>, ms: Seq<Sh>, m: Seq<int>) -> bool { fresh(a.given(), m, a.parties(), hs) && fresh(m, b.given(), a.parties(), ms) }
pub proof fn ones(s: Seq<Sh>) requires bits_of(s) ensures 0 <= ssum(s) <= s.len(), ssum(s) > 0 <==> some_one(s) decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).sec() == 0 || d[i].sec() == 1 by { assert(s[i].sec() == 0 || s[i].sec() == 1); }
        ones(d); let l = s.last(); assert(l == s[s.len() - 1]);
        if some_one(d) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).sec() == 1; assert(s[i].sec() == 1); }
        if l.sec() == 1 { assert(some_one(s)); }
        if some_one(s) && l.sec() != 1 { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).sec() == 1; assert(d[i].sec() == 1); }
    }
}
/// the k-th opened factor is s times the k-th inverse helper times the helper before it
pub open spec fn factor(s: int, h: Seq<int>, v: Seq<int>, k: int) -> int { s * (if k == 0 { v[0] } else { h[k - 1] * v[k] }) }
/// all helpers but the last cancel
pub proof fn telescope(s: int, h: Seq<int>, v: Seq<int>, r: Seq<F>, k: int)
    requires p() > 1, h.len() == v.len(), h.len() == r.len(), 1 <= k <= h.len(), forall|i: int| 0 <= i < h.len() ==> cong(#[trigger] (h[i] * v[i]), 1), forall|i: int| 0 <= i < r.len() ==> cong((#[trigger] r[i])@, factor(s, h, v, i))
    ensures cong(h[k - 1] * fprod(r.take(k)), pow(s, k as nat))
    decreases k
{
    let t = r.take(k); let p0 = fprod(t.drop_last()); let e = t.last()@; assert(e == r[k - 1]@); assert(t.drop_last() =~= r.take(k - 1)); pow_s(s, (k - 1) as nat);
    let (hk, vk) = (h[k - 1], v[k - 1]); assert(cong(h[k - 1] * v[k - 1], 1)); assert(cong(r[k - 1]@, factor(s, h, v, k - 1)));
    if k == 1 {
        assert(fprod(r.take(0)) == 1); pow0(s); cong_mul(hk, hk, e, s * vk); assert(hk * (1 * e) == hk * e); assert(hk * (s * vk) == s * (hk * vk)) by(nonlinear_arith);
        cong_mul(s, s, hk * vk, 1); assert(s * 1 == s);
    } else {
        telescope(s, h, v, r, k - 1); let g = h[k - 2]; let q = pow(s, (k - 1) as nat);
        cong_mul(hk * p0, hk * p0, e, s * (g * vk));
        assert(hk * (p0 * e) == (hk * p0) * e) by(nonlinear_arith);
        assert((hk * p0) * (s * (g * vk)) == (s * (g * p0)) * (hk * vk)) by(nonlinear_arith);
        cong_mul(s, s, g * p0, q); cong_mul(s * (g * p0), s * q, hk * vk, 1); assert((s * q) * 1 == s * q);
    }
}
pub open spec fn secs(s: Seq<Sh>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].sec()) }
pub open spec fn vals(s: Seq<F>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i]@) }
pub proof fn fprod_same(a: Seq<F>, b: Seq<F>) requires a.len() == b.len(), forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k])@ == b[k]@ ensures fprod(a) == fprod(b) decreases a.len()
{ if a.len() > 0 { assert(a[a.len() - 1]@ == b[a.len() - 1]@); assert forall|k: int| 0 <= k < a.drop_last().len() implies (#[trigger] a.drop_last()[k])@ == b.drop_last()[k]@ by { assert(a[k]@ == b[k]@); } fprod_same(a.drop_last(), b.drop_last()); } }
/// the k-th cancellation factor
pub open spec fn cfv(hs: Seq<Sh>, iv: Seq<Sh>, k: int) -> int { if k == 0 { iv[0].sec() } else { md(hs[k - 1].sec() * iv[k].sec()) } }
impl Pr {
//@fn OR UnboundedOrFunctionScheme for JointUnboundedOrFunction::unbounded_shared_or | async chain vis=pub nogenerics nowhere
//@attr
#[verifier::loop_isolation(true)]
//@sub P => Pr
//@sub P:: => Pr::
//@sub S => Sh
//@sub T => F
//@sub T:: => F::
//@sub R => VpRng
//@elem 1 usize
//@elem 2 F
//@elem 4 F
//@elem 5 Sh
//@elem 6 (Sh, Sh)
//@elem 8 (Sh, Sh)
//@elem 9 F
//@elem 10 Sh
//@textsub get_inverted_vandermonde_entry::<F> => get_inverted_vandermonde_entry
//@spec
    requires 1 <= bits@.len() < p() - 1, bits@.len() < isize::MAX, bits_of(bits@)
    ensures exists|hs: Seq<Sh>, ms: Seq<Sh>, m: Seq<int>| hs.len() == bits@.len() && ms.len() == bits@.len() && #[trigger] two_rounds(*old(protocol), *final(protocol), hs, ms, m) && (no_zero(hs) && no_zero(ms) ==> r.sec() == (if some_one(bits@) { 1int } else { 0int }))
//@at entry
    proof { p_prime(); small_mods(); ones(bits@); }
//@at names degree sum
    let ghost t = ssum(bits@); let ghost s = t + 1; let ghost n = (degree + 1) as nat;
    proof { lemma_small_mod(t, p()); lemma_small_mod(s, p()); assert(sum.sec() == s); }
//@loop 1
    invariant degree < isize::MAX, forall|k: int| 0 <= k < __c1@.len() ==> (#[trigger] __c1@[k]) as int == cj(k)
//@loop 2
    invariant is_prime(p()), n == degree + 1, n < p(), degree < isize::MAX, lagrange_coefficients@.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] lagrange_coefficients@[k]) as int == cj(k),
        __c2@.len() == __i2, forall|k: int| 0 <= k < __c2@.len() ==> can(#[trigger] __c2@[k]) && cong(__c2@[k]@, mono(k, n as int, n as int))
//@loop 3
    invariant is_prime(p()), n == degree + 1, n < p(), degree < isize::MAX, lagrange_coefficients@.len() == n, __n4 == n, i < n, forall|k: int| 0 <= k < n ==> (#[trigger] lagrange_coefficients@[k]) as int == cj(k),
        __c4@.len() == __i4, cong(fsum(__c4@), mono(i as int, __i4 as int, n as int))
//@at loop 3 before
    proof { assert(fsum(__c4@) == 0); }
//@at loop 3 start
    let ghost cb = __c4@;
//@at loop 3 end
    proof {
        let (j, ii, nn) = (__i4 as int, i as int, n as int); let e = __c4@.last()@; assert(__c4@.drop_last() =~= cb); let en = ent(ii, j, nn); let c = cj(j);
        cong_mod(en); cong_mod(c); cong_mul(md(en), en, md(c), c); cong_mod(md(en) * md(c)); cong_trans(e, md(en) * md(c), en * c);
        cong_add(fsum(cb), mono(ii, j, nn), e, en * c);
    }
//@loop 4
    invariant __n3 == __s3@.len(), __c3@ =~= __s3@.take(__i3 as int)
//@at loop 4 after
    proof { assert(__c3@ =~= __s3@); cong_mod(fsum(__c3@)); }
//@at let monomial_coefficients 1 after
    let ghost mc = vals(monomial_coefficients@);
//@loop 5
    invariant __c5@.len() == __i5 - 1, fresh(old(protocol).given(), protocol.given(), old(protocol).parties(), __c5@), protocol.parties() == old(protocol).parties()
//@at loop 5 start
    let ghost (cb, gb) = (__c5@, protocol.given());
//@at loop 5 end
    proof { let h = __c5@[__i5 - 1]; assert(__c5@ =~= cb.push(h)); fresh_step(old(protocol).given(), gb, protocol.given(), old(protocol).parties(), cb, h); }
//@at let helpers 2 after
    let ghost hs = helpers@; let ghost g1 = protocol.given();
//@at let inverted_helpers 1 after
    let ghost iv = inverted_helpers@; let ghost g2 = protocol.given();
    let ghost ms = choose|ms: Seq<Sh>| ms.len() == hs.len() && #[trigger] fresh(g1, g2, old(protocol).parties(), ms) && (forall|i: int| 0 <= i < iv.len() ==> inverse_ok(hs[i], ms[i], #[trigger] iv[i]));
    let ghost nz = no_zero(hs) && no_zero(ms);
    proof { assert(fresh(g1, g2, old(protocol).parties(), ms)); }
//@loop 6
    invariant hs.len() == degree, iv.len() == degree, degree >= 1, __s6@ == hs.take(degree - 1), __s7@ == iv.skip(1), __n6 == degree - 1, __c6@.len() == __i6, forall|k: int| 0 <= k < __c6@.len() ==> #[trigger] __c6@[k] == (hs[k], iv[k + 1])
//@at let factors 1 before
    proof { assert forall|k: int| 0 <= k < degree implies (#[trigger] cancellation_factors@[k]).sec() == cfv(hs, iv, k) by { } }
    let ghost cf = cancellation_factors@;
//@loop 7
    invariant cf == cancellation_factors@, __n8 == cf.len(), __c8@.len() == __i8, forall|k: int| 0 <= k < __c8@.len() ==> #[trigger] __c8@[k] == (sum, cf[k])
//@at let factors 1 after
    let ghost fs = factors@;
    proof { assert(fs.len() == degree); assert forall|k: int| 0 <= k < degree implies (#[trigger] fs[k]).sec() == md(s * cfv(hs, iv, k)) by { assert(cf[k].sec() == cfv(hs, iv, k)); } }
//@loop 8
    invariant fs == factors@, __n9 == fs.len(), protocol.given() == g2, __c9@.len() == __i9, forall|k: int| 0 <= k < __c9@.len() ==> can(#[trigger] __c9@[k]) && __c9@[k]@ == fs[k].sec()
//@at let revealed_factors 2 after
    let ghost rv = revealed_factors@;
    proof {
        if nz {
            let (h, v) = (secs(hs), secs(iv));
            assert forall|i: int| 0 <= i < h.len() implies cong(#[trigger] (h[i] * v[i]), 1) by { assert(inverse_ok(hs[i], ms[i], iv[i])); assert(hs[i].sec() != 0 && ms[i].sec() != 0); lemma_small_mod(1, p()); assert(iv[i].sec() * hs[i].sec() == h[i] * v[i]) by(nonlinear_arith) requires h[i] == hs[i].sec(), v[i] == iv[i].sec(); }
            assert forall|i: int| 0 <= i < rv.len() implies cong((#[trigger] rv[i])@, factor(s, h, v, i)) by {
                let x = cfv(hs, iv, i); assert(rv[i]@ == fs[i].sec()); cong_mod(s * x);
                if i > 0 { cong_mod(h[i - 1] * v[i]); cong_mul(s, s, x, h[i - 1] * v[i]); }
            }
            assert forall|k: int| 1 <= k <= degree implies cong(h[k - 1] * #[trigger] fprod(rv.take(k)), pow(s, k as nat)) by { telescope(s, h, v, rv, k); }
        }
    }
//@loop 9
    invariant is_prime(p()), n == degree + 1, monomial_coefficients@.len() == n, hs == helpers@, hs.len() == degree, rv == revealed_factors@, rv.len() == degree, mc == vals(monomial_coefficients@),
        nz ==> forall|k: int| 1 <= k <= degree ==> cong(hs[k - 1].sec() * #[trigger] fprod(rv.take(k)), pow(s, k as nat)),
        __c10@.len() == __i10 - 1, nz ==> forall|k: int| 0 <= k < __c10@.len() ==> cong((#[trigger] __c10@[k]).sec(), mc[k + 1] * pow(s, (k + 1) as nat))
//@at loop 9 before
    proof { if nz { assert forall|k: int| 1 <= k <= degree implies cong(hs[k - 1].sec() * #[trigger] fprod(rv.take(k)), pow(s, k as nat)) by { assert(secs(hs)[k - 1] == hs[k - 1].sec()); } } }
//@at loop 9 end
    proof {
        let k = power as int; let e = __c10@[k - 1].sec(); let (h, q, m) = (hs[k - 1].sec(), fprod(rv.take(k)), mc[k]);
        cong_mod(q); cong_mul(h, h, md(q), q); cong_mod(h * md(q)); cong_trans(md(h * md(q)), h * md(q), h * q);
        cong_mul(md(h * md(q)), h * q, m, m); cong_mod(md(h * md(q)) * m); cong_trans(e, md(h * md(q)) * m, (h * q) * m);
        if nz { cong_mul(h * q, pow(s, k as nat), m, m); assert(pow(s, k as nat) * m == m * pow(s, k as nat)) by(nonlinear_arith); }
    }
//@loop 10
    invariant __n11 == __s11@.len(), __s11@ == rv.take(power as int), __c11@.len() == __i11, forall|k: int| 0 <= k < __i11 ==> (#[trigger] __c11@[k])@ == __s11@[k]@
//@at loop 10 after
    proof { fprod_same(__c11@, rv.take(power as int)); }
//@loop 11
    invariant is_prime(p()), n == degree + 1, n >= 2, powers_for_polynomial@.len() == degree, __s12@ == powers_for_polynomial@.skip(1), __n12 == degree - 1, mc.len() == n,
        nz ==> forall|k: int| 0 <= k < degree ==> cong((#[trigger] powers_for_polynomial@[k]).sec(), mc[k + 1] * pow(s, (k + 1) as nat)), nz ==> cong(__a12.sec(), pev(mc.take(__i12 + 2), s))
//@at loop 11 before
    proof { if nz {
        let e = powers_for_polynomial@[0].sec(); let c1 = mc.take(2); assert(c1.drop_last() =~= mc.take(1)); assert(mc.take(1).drop_last().len() == 0); assert(pev(mc.take(1).drop_last(), s) == 0); pow0(s);
        assert(pev(mc.take(1), s) == mc[0]); cong_add(e, mc[1] * pow(s, 1), mc[0], mc[0]); cong_mod(e + mc[0]);
    } }
//@at loop 11 start
    let ghost a0 = __a12.sec();
//@at loop 11 end
    proof { if nz {
        let e = powers_for_polynomial@[__i12 + 1].sec(); let k = (__i12 + 2) as nat; let c1 = mc.take(__i12 + 3); assert(c1.drop_last() =~= mc.take(__i12 + 2));
        cong_add(a0, pev(mc.take(__i12 + 2), s), e, mc[__i12 + 2] * pow(s, k)); cong_mod(a0 + e);
    } }
//@at loop 11 after
    proof {
        assert(mc.take(n as int) =~= mc); let cs = coefs(n);
        assert forall|k: int| 0 <= k < mc.len() implies cong(#[trigger] mc[k], cs[k]) by { }
        pev_cong(mc, cs, s, s); or_poly(n, t); sec_range(__a12); lemma_small_mod(0, p()); lemma_small_mod(1, p());
        assert(two_rounds(*old(protocol), *protocol, hs, ms, g1));
        if nz { cong_trans(__a12.sec(), pev(mc, s), pev(cs, s)); lemma_small_mod(__a12.sec(), p()); }
    }
//@endfn
//@fn OR OrFunctionScheme for JointUnboundedOrFunction::shared_or | async chain vis=pub nogenerics nowhere
//@sub P => Pr
//@sub S => Sh
//@sub R => VpRng
//@sub Self:: => Pr::
//@spec
    requires p() > 2, bits.sec() == 0 || bits.sec() == 1
    ensures exists|hs: Seq<Sh>, ms: Seq<Sh>, m: Seq<int>| hs.len() == 1 && ms.len() == 1 && #[trigger] two_rounds(*old(protocol), *final(protocol), hs, ms, m) && (no_zero(hs) && no_zero(ms) ==> r.sec() == bits.sec())
//@at let bits_vec 1 after
    proof { let v = bits_vec@; assert(v.len() == 1 && v[0].sec() == bits.sec()); assert(bits_of(v)); if bits.sec() == 1 { assert(v[0].sec() == 1); assert(some_one(v)); } }
//@endfn
}
} fn main() {}
