/// the Lagrange sum over the first k nodes
pub open spec fn lsum(all: Seq<int>, ys: Seq<int>, k: int) -> int decreases k { if k <= 0 { 0 } else { lsum(all, ys, k - 1) + ys[k - 1] * lw(all, all[k - 1]) } }
pub open spec fn first(s: Seq<(usize, F)>, t: int) -> Seq<(usize, F)> { s.take(if t < s.len() { t } else { s.len() as int }) }
//@fn SHAMIR ThresholdSecretSharingScheme for P::reconstruct_secret | chain vis=pub nogenerics nowhere
//@sub T => F
//@sub T:: => F::
//@spec
    requires nodes_ok(xs_of(first(shares@, threshold as int))), forall|i: int| 0 <= i < shares@.len() ==> (#[trigger] shares@[i]).0 <= isize::MAX
    ensures ({ let s = first(shares@, threshold as int); r@ == md(lsum(xs_of(s), ys_of(s), s.len() as int)) && can(r) })
//@at entry
    proof { p_prime(); small_mods(); }
    let ghost s = first(shares@, threshold as int); let ghost xs = xs_of(s); let ghost ys = ys_of(s);
//@loop 1
    invariant p() > 1, s == first(shares@, threshold as int), __n1 == s.len(), xs == xs_of(s), ys == ys_of(s), nodes_ok(xs), cong(fsum(__c1@), lsum(xs, ys, __i1 as int)),
        forall|i: int| 0 <= i < shares@.len() ==> (#[trigger] shares@[i]).0 <= isize::MAX
//@loop 2
    invariant p() > 1, s == first(shares@, threshold as int), __n2 == s.len(), xs == xs_of(s), nodes_ok(xs), __i1 < s.len(), *i == xs[__i1 as int], cong(fprod(__c2@), lw(xs.take(__i2 as int), *i as int)),
        forall|i: int| 0 <= i < shares@.len() ==> (#[trigger] shares@[i]).0 <= isize::MAX
//@at loop 2 before
    proof { assert(xs[__i1 as int] == s[__i1 as int].0); assert(s[__i1 as int] == shares@[__i1 as int]); }
//@at loop 2 start
    let ghost cb = __c2@;
//@at loop 2 end
    proof {
        let (xi, z) = (*i as int, xs[__i2 as int]); let t = xs.take(__i2 + 1); let w = lw(xs.take(__i2 as int), xi);
        assert(t.drop_last() =~= xs.take(__i2 as int)); assert(z == s[__i2 as int].0 && s[__i2 as int] == shares@[__i2 as int]);
        if xi != z {
            let e = __c2@.last()@;
            assert(__c2@.drop_last() =~= cb); 
            assert(xs[__i1 as int] == xi); diff_nonzero(xi, z);
            cong_mod(xi - z); cong_mod(0 - z);
            assert(md(md(xi - z)) == md(xi - z));
            assert(e == md(md(0 - z) * inv(md(xi - z))));
            assert(inv(md(xi - z)) == inv(xi - z));
            let v = inv(xi - z);
            cong_mul(md(0 - z), 0 - z, v, v); cong_mod(md(0 - z) * v); cong_trans(e, md(0 - z) * v, (0 - z) * v);
            cong_mul(fprod(cb), w, e, (0 - z) * v);
        } else { assert(w * 1 == w); }
    }
//@at loop 1 start
    let ghost c0 = __c1@;
//@at loop 1 end
    proof {
        let (xi, y) = (xs[__i1 as int], ys[__i1 as int]); let w = lw(xs, xi); let e = __c1@.last()@;
        assert(__c1@.drop_last() =~= c0); assert(s[__i1 as int] == shares@[__i1 as int]);
        assert(xs.take(__n1 as int) =~= xs);
        assert(exists|q: int| cong(q, w) && e == md(y * #[trigger] md(q)));
        let q = choose|q: int| cong(q, w) && e == md(y * #[trigger] md(q));
        cong_mod(q); cong_trans(md(q), q, w); cong_mul(y, y, md(q), w); cong_mod(y * md(q)); cong_trans(e, y * md(q), y * w);
        cong_add(fsum(c0), lsum(xs, ys, __i1 as int), e, y * w);
    }
//@endfn
pub proof fn lsum_poly(all: Seq<int>, ys: Seq<int>, c: Seq<int>, k: int)
    requires p() > 1, 0 <= k <= all.len(), all.len() == ys.len(), forall|i: int| 0 <= i < all.len() ==> cong(#[trigger] ys[i], pev(c, all[i]))
    ensures cong(lsum(all, ys, k), wsum(all.take(k), |x: int| pev(c, x) * lw(all, x)))
    decreases k
{
    let f = |x: int| pev(c, x) * lw(all, x);
    if k > 0 {
        lsum_poly(all, ys, c, k - 1); let x = all[k - 1];
        assert(all.take(k).drop_last() =~= all.take(k - 1)); assert(all.take(k).last() == x);
        cong_mul(ys[k - 1], pev(c, x), lw(all, x), lw(all, x)); cong_add(lsum(all, ys, k - 1), wsum(all.take(k - 1), f), ys[k - 1] * lw(all, x), f(x));
    } else { assert(all.take(0).len() == 0); assert(wsum(all.take(0), f) == 0); }
}
