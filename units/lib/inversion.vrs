//@alias INV = jester_sharing/src/inversion/unbounded_inversion.rs
/// the contributions logged from g to g2 are, block by block, those of the masks hs
pub open spec fn fresh(g: Seq<int>, g2: Seq<int>, k: nat, hs: Seq<Sh>) -> bool decreases hs.len()
{ if hs.len() == 0 { g2 == g } else { let m = g2.take(g2.len() - k); g2.len() >= k && fresh(g, m, k, hs.drop_last()) && block(m, g2, k, hs.last()) } }
pub proof fn fresh_step(g: Seq<int>, m: Seq<int>, g2: Seq<int>, k: nat, hs: Seq<Sh>, h: Sh) requires fresh(g, m, k, hs), block(m, g2, k, h) ensures fresh(g, g2, k, hs.push(h))
{ assert(hs.push(h).drop_last() =~= hs); assert(g2.take(g2.len() - k) =~= m); }
pub proof fn fresh_one(g: Seq<int>, g2: Seq<int>, k: nat, hs: Seq<Sh>) requires fresh(g, g2, k, hs), hs.len() == 1 ensures block(g, g2, k, hs[0])
{ assert(hs.drop_last().len() == 0); assert(hs.last() == hs[0]); assert(fresh(g, g2.take(g2.len() - k), k, hs.drop_last())); }
/// the openings of the products of each secret with its mask
pub open spec fn masked_products(xs: Seq<Sh>, hs: Seq<Sh>, n: int) -> Multiset<int> decreases n
{ if n <= 0 { Multiset::empty() } else { masked_products(xs, hs, n - 1).insert(md(xs[n - 1].sec() * hs[n - 1].sec())) } }
/// r is a share of the inverse of x, unless x or the mask happens to be zero
pub open spec fn inverse_ok(x: Sh, h: Sh, r: Sh) -> bool { x.sec() != 0 && h.sec() != 0 ==> md(r.sec() * x.sec()) == 1 }
/// h * (x h)^-1 is the inverse of x
pub proof fn unmask(x: int, h: int, q: int) requires is_prime(p()), 0 < x < p(), 0 < h < p(), q == md(x * h) ensures md(md(h * inv(q)) * x) == 1, q != 0
{
    lemma_small_mod(x, p()); lemma_small_mod(h, p()); prime_product(x, h); lemma_small_mod(q, p()); inv_exists(q);
    let i = inv(q); cong_mod(x * h); cong_mod(h * i);
    cong_mul(md(h * i), h * i, x, x); cong_mul(q, x * h, i, i); assert((h * i) * x == (x * h) * i) by(nonlinear_arith);
    lemma_small_mod(1, p());
}
impl Pr {
//@fn INV UnboundedInversionScheme for JointUnboundedInversion::unbounded_inverse | async chain vis=pub nogenerics nowhere
//@sub P => Pr
//@sub P:: => Pr::
//@sub S => Sh
//@sub T => F
//@sub R => VpRng
//@elem 1 Sh
//@elem 2 (Sh, Sh)
//@elem 4 F
//@elem 5 Sh
//@spec
    ensures r@.len() == shares@.len(), exists|hs: Seq<Sh>| hs.len() == shares@.len() && #[trigger] fresh(old(protocol).given(), final(protocol).given(), old(protocol).parties(), hs)
        && (forall|i: int| 0 <= i < r@.len() ==> inverse_ok(shares@[i], hs[i], #[trigger] r@[i]))
        && (exists|ts: Seq<(Sh, Sh, Sh)>| ts.len() == shares@.len() && final(protocol).triples() == old(protocol).triples() + ts
            && final(protocol).opened() == old(protocol).opened().add(masked(zip(shares@, hs), ts, ts.len() as int)).add(#[trigger] masked_products(shares@, hs, hs.len() as int)))
//@at entry
    proof { p_prime(); }
//@loop 1
    invariant __c1@.len() == __i1, bound == shares@.len(), fresh(old(protocol).given(), protocol.given(), old(protocol).parties(), __c1@), only_gave(*old(protocol), *protocol)
//@at loop 1 start
    let ghost (cb, gb) = (__c1@, protocol.given());
//@at loop 1 end
    proof { let h = __c1@[__i1 as int]; assert(__c1@ =~= cb.push(h)); fresh_step(old(protocol).given(), gb, protocol.given(), old(protocol).parties(), cb, h); }
//@at let helpers 1 after
    let ghost hs = helpers@; let ghost g1 = protocol.given();
//@loop 2
    invariant __n2 == shares@.len(), shares_iter@ =~= shares@, __s3@ =~= hs, hs.len() == shares@.len(), __c2@.len() == __i2, forall|i: int| 0 <= i < __c2@.len() ==> #[trigger] __c2@[i] == (shares@[i], hs[i])
//@at loop 2 after
    proof { assert(__c2@ =~= zip(shares@, hs)); }
//@at let rerandomized_elements 1 after
    let ghost ops = protocol.opened(); let ghost ps = zip(shares@, hs); let ghost rr = rerandomized_elements@; let ghost tr = protocol.triples();
    let ghost ts = choose|ts: Seq<(Sh, Sh, Sh)>| ts.len() == ps.len() && tr == old(protocol).triples() + ts && ops == old(protocol).opened().add(#[trigger] masked(ps, ts, ts.len() as int));
    proof { assert(products(ps, rr)); assert(protocol.given() == g1); assert(ts.len() == ps.len()); }
//@loop 3
    invariant __n4 == shares@.len(), hs.len() == shares@.len(), ps == zip(shares@, hs), rerandomized_elements@ == rr, products(ps, rr), __c4@.len() == __i4, protocol.given() == g1, protocol.triples() == tr,
        protocol.opened() == ops.add(masked_products(shares@, hs, __i4 as int)), forall|i: int| 0 <= i < __c4@.len() ==> can(#[trigger] __c4@[i]) && __c4@[i]@ == md(shares@[i].sec() * hs[i].sec())
//@at loop 3 before
    proof { assert(protocol.opened() =~= ops.add(masked_products(shares@, hs, 0))); }
//@at loop 3 end
    proof { assert(rr[__i4 as int].sec() == md(ps[__i4 as int].0.sec() * ps[__i4 as int].1.sec())); assert(protocol.opened() =~= ops.add(masked_products(shares@, hs, __i4 + 1))); }
//@loop 4
    invariant __n5 == shares@.len(), hs.len() == shares@.len(), helpers@ == hs, is_prime(p()), revealed_elements@.len() == shares@.len(), __c5@.len() == __i5, protocol.given() == g1, protocol.triples() == tr, protocol.opened() == ops.add(masked_products(shares@, hs, shares@.len() as int)),
        forall|i: int| 0 <= i < shares@.len() ==> can(#[trigger] revealed_elements@[i]) && revealed_elements@[i]@ == md(shares@[i].sec() * hs[i].sec()),
        forall|i: int| 0 <= i < __c5@.len() ==> inverse_ok(shares@[i], hs[i], #[trigger] __c5@[i])
//@at loop 4 end
    proof { let (x, h) = (shares@[__i5 as int].sec(), hs[__i5 as int].sec()); let q = revealed_elements@[__i5 as int]@; assert(can(revealed_elements@[__i5 as int])); sec_range(shares@[__i5 as int]); sec_range(hs[__i5 as int]);
        if x != 0 && h != 0 { unmask(x, h, q); } }
//@at loop 4 after
    proof {
        assert(fresh(old(protocol).given(), protocol.given(), old(protocol).parties(), hs));
        assert(protocol.opened() =~= old(protocol).opened().add(masked(ps, ts, ts.len() as int)).add(masked_products(shares@, hs, hs.len() as int)));
    }
//@endfn
//@fn INV InversionScheme for JointUnboundedInversion::inverse | async chain vis=pub nogenerics nowhere
//@sub P => Pr
//@sub P:: => Pr::
//@sub Self:: => Pr::
//@sub S => Sh
//@sub T => F
//@sub R => VpRng
//@spec
    ensures exists|h: Sh| #[trigger] inverse_ok(*share, h, r) && block(old(protocol).given(), final(protocol).given(), old(protocol).parties(), h)
//@at exit
    proof {
        let hs = choose|hs: Seq<Sh>| hs.len() == 1 && #[trigger] fresh(old(protocol).given(), protocol.given(), old(protocol).parties(), hs) && inverse_ok(*share, hs[0], __ret);
        fresh_one(old(protocol).given(), protocol.given(), old(protocol).parties(), hs); assert(inverse_ok(*share, hs[0], __ret));
    }
//@endfn
}
