//@include lib/head_sharing.vrs
//@include lib/poly.vrs
//@alias SHAMIR = jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
//@include lib/gen_spec.vrs
//@include lib/lagrange.vrs
//@include lib/recon.vrs contracts shamir
pub open spec fn isum(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { isum(s.drop_last()) + s.last() } }
//@fn SHAMIR LinearSharingScheme for P::add_shares | chain vis=pub nogenerics nowhere
//@sub T => F
//@sub T:: => F::
//@spec
    requires lhs.0 == rhs.0
    ensures r.0 == lhs.0, can(r.1), r.1@ == md(lhs.1@ + rhs.1@)
//@endfn
//@fn SHAMIR LinearSharingScheme for P::sub_shares | chain vis=pub nogenerics nowhere
//@sub T => F
//@sub T:: => F::
//@spec
    requires lhs.0 == rhs.0, can(rhs.1)
    ensures r.0 == lhs.0, can(r.1), r.1@ == md(lhs.1@ - rhs.1@)
//@endfn
//@fn SHAMIR LinearSharingScheme for P::add_scalar | chain vis=pub nogenerics nowhere
//@sub T => F
//@sub T:: => F::
//@spec
    ensures r.0 == share.0, can(r.1), r.1@ == md(share.1@ + scalar@)
//@endfn
//@fn SHAMIR LinearSharingScheme for P::sub_scalar | chain vis=pub nogenerics nowhere
//@sub T => F
//@sub T:: => F::
//@spec
    requires can(*scalar)
    ensures r.0 == share.0, can(r.1), r.1@ == md(share.1@ - scalar@)
//@endfn
//@fn SHAMIR LinearSharingScheme for P::multiply_scalar | chain vis=pub nogenerics nowhere
//@sub T => F
//@sub T:: => F::
//@spec
    ensures r.0 == share.0, can(r.1), r.1@ == md(share.1@ * scalar@)
//@endfn
//@fn SHAMIR LinearSharingScheme for P::sum_shares | chain vis=pub nogenerics nowhere
//@sub T => F
//@sub T:: => F::
//@spec
    requires forall|i: int| 0 <= i < shares@.len() ==> (#[trigger] shares@[i]).0 == shares@[0].0
    ensures shares@.len() == 0 ==> r.is_none(), shares@.len() > 0 ==> r.is_some() && r.unwrap().0 == shares@[0].0 && can(r.unwrap().1) && r.unwrap().1@ == md(isum(ys_of(shares@)))
//@closure 1
    -> (v: usize) ensures v == x.0
//@loop 1
    invariant __n1 == shares@.len(), __a1 == Some(shares@[0].0), forall|i: int| 0 <= i < shares@.len() ==> (#[trigger] shares@[i]).0 == shares@[0].0
//@loop 2
    invariant __n2 == shares@.len(), fsum(__c2@) == isum(ys_of(shares@).take(__i2 as int))
//@at loop 2 start
    let ghost cb = __c2@;
//@at loop 2 end
    proof { assert(__c2@.drop_last() =~= cb); assert(ys_of(shares@).take(__i2 + 1).drop_last() =~= ys_of(shares@).take(__i2 as int)); }
//@at loop 2 after
    proof { assert(ys_of(shares@).take(__n2 as int) =~= ys_of(shares@)); }
//@endfn
// ---------- S03 ----------
/// share s lies on the polynomial c
pub open spec fn on(c: Seq<int>, s: (usize, F)) -> bool { cong(s.1@, pev(c, s.0 as int)) }
pub fn thm_add(l: &(usize, F), r: &(usize, F), c: Ghost<Seq<int>>, d: Ghost<Seq<int>>) -> (o: (usize, F))
    requires on(c@, *l), on(d@, *r), l.0 == r.0, c@.len() == d@.len(), c@.len() >= 1
    ensures o.0 == l.0, on(plin(1, c@, 1, d@), o), plin(1, c@, 1, d@)[0] == c@[0] + d@[0]
{ proof { p_prime(); let x = l.0 as int; pev_lin(1, c@, 1, d@, x); cong_add(l.1@, pev(c@, x), r.1@, pev(d@, x)); cong_mod(l.1@ + r.1@); } add_shares(l, r) }
pub fn thm_sub(l: &(usize, F), r: &(usize, F), c: Ghost<Seq<int>>, d: Ghost<Seq<int>>) -> (o: (usize, F))
    requires on(c@, *l), on(d@, *r), l.0 == r.0, c@.len() == d@.len(), c@.len() >= 1, can(r.1)
    ensures o.0 == l.0, on(plin(1, c@, -1, d@), o), plin(1, c@, -1, d@)[0] == c@[0] - d@[0]
{ proof { p_prime(); let x = l.0 as int; pev_lin(1, c@, -1, d@, x); cong_sub(l.1@, pev(c@, x), r.1@, pev(d@, x)); cong_mod(l.1@ - r.1@); } sub_shares(l, r) }
pub fn thm_add_scalar(l: &(usize, F), v: &F, c: Ghost<Seq<int>>) -> (o: (usize, F))
    requires on(c@, *l), c@.len() >= 1
    ensures o.0 == l.0, ({ let e = plin(1, c@, 1, pconst(v@, c@.len())); on(e, o) && e[0] == c@[0] + v@ })
{ proof { p_prime(); let x = l.0 as int; pev_lin(1, c@, 1, pconst(v@, c@.len()), x); pev_const(v@, c@.len(), x); cong_add(l.1@, pev(c@, x), v@, v@); cong_mod(l.1@ + v@); } add_scalar(l, v) }
pub fn thm_sub_scalar(l: &(usize, F), v: &F, c: Ghost<Seq<int>>) -> (o: (usize, F))
    requires on(c@, *l), c@.len() >= 1, can(*v)
    ensures o.0 == l.0, ({ let e = plin(1, c@, -1, pconst(v@, c@.len())); on(e, o) && e[0] == c@[0] - v@ })
{ proof { p_prime(); let x = l.0 as int; pev_lin(1, c@, -1, pconst(v@, c@.len()), x); pev_const(v@, c@.len(), x); cong_sub(l.1@, pev(c@, x), v@, v@); cong_mod(l.1@ - v@); } sub_scalar(l, v) }
pub fn thm_multiply_scalar(l: &(usize, F), v: &F, c: Ghost<Seq<int>>) -> (o: (usize, F))
    requires on(c@, *l), c@.len() >= 1
    ensures o.0 == l.0, on(plin(v@, c@, 0, c@), o), plin(v@, c@, 0, c@)[0] == v@ * c@[0]
{ proof { p_prime(); let x = l.0 as int; pev_lin(v@, c@, 0, c@, x); cong_mul(v@, v@, l.1@, pev(c@, x)); cong_mod(l.1@ * v@); assert(l.1@ * v@ == v@ * l.1@) by(nonlinear_arith); assert(0 * pev(c@, x) == 0 && 0 * c@[0] == 0); } multiply_scalar(l, v) }
/// the sum of many polynomials of t coefficients
pub open spec fn psum(cs: Seq<Seq<int>>, t: nat) -> Seq<int> decreases cs.len() { if cs.len() == 0 { pconst(0, t) } else { plin(1, psum(cs.drop_last(), t), 1, cs.last()) } }
pub open spec fn csum(cs: Seq<Seq<int>>) -> int decreases cs.len() { if cs.len() == 0 { 0 } else { csum(cs.drop_last()) + cs.last()[0] } }
pub proof fn psum_on(cs: Seq<Seq<int>>, t: nat, ss: Seq<(usize, F)>, x: int)
    requires p() > 1, t >= 1, cs.len() == ss.len(), forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).len() == t && on(cs[i], ss[i]) && ss[i].0 == x
    ensures psum(cs, t).len() == t, psum(cs, t)[0] == csum(cs), cong(isum(ys_of(ss)), pev(psum(cs, t), x))
    decreases cs.len()
{
    if cs.len() == 0 { pev_const(0, t, x); } else {
        let n = cs.len() - 1; let (c0, s0) = (cs.drop_last(), ss.drop_last());
        assert forall|i: int| 0 <= i < c0.len() implies (#[trigger] c0[i]).len() == t && on(c0[i], s0[i]) && s0[i].0 == x by { assert(cs[i].len() == t && on(cs[i], ss[i])); }
        psum_on(c0, t, s0, x); assert(cs[n].len() == t && on(cs[n], ss[n]));
        pev_lin(1, psum(c0, t), 1, cs[n], x); assert(ys_of(ss).drop_last() =~= ys_of(s0));
        cong_add(isum(ys_of(s0)), pev(psum(c0, t), x), ss[n].1@, pev(cs[n], x));
    }
}
pub fn thm_sum(shares: &[(usize, F)], cs: Ghost<Seq<Seq<int>>>, t: Ghost<nat>) -> (o: Option<(usize, F)>)
    requires t@ >= 1, cs@.len() == shares@.len(), forall|i: int| 0 <= i < cs@.len() ==> (#[trigger] cs@[i]).len() == t@ && on(cs@[i], shares@[i]) && shares@[i].0 == shares@[0].0
    ensures o.is_some() == (shares@.len() > 0), o.is_some() ==> o.unwrap().0 == shares@[0].0 && on(psum(cs@, t@), o.unwrap()) && psum(cs@, t@).len() == t@ && psum(cs@, t@)[0] == csum(cs@)
{
    proof { p_prime(); assert forall|i: int| 0 <= i < shares@.len() implies (#[trigger] shares@[i]).0 == shares@[0].0 by { assert(cs@[i].len() == t@); }
        if shares@.len() > 0 { psum_on(cs@, t@, shares@, shares@[0].0 as int); cong_mod(isum(ys_of(shares@))); } }
    sum_shares(shares)
}
/// whatever combination built them: shares on a polynomial of at most threshold coefficients reconstruct its constant term
pub fn thm_reconstruct(shares: &[(usize, F)], threshold: usize, c: Ghost<Seq<int>>) -> (r: F)
    requires 1 <= c@.len() <= threshold <= shares@.len(), forall|i: int| 0 <= i < shares@.len() ==> on(c@, #[trigger] shares@[i]) && 0 < shares@[i].0 < p() && shares@[i].0 <= isize::MAX,
        forall|i: int, j: int| 0 <= i < j < shares@.len() ==> (#[trigger] shares@[i]).0 != (#[trigger] shares@[j]).0
    ensures r@ == md(c@[0])
{
    proof {
        p_prime(); let s = first(shares@, threshold as int); let xs = xs_of(s); let ys = ys_of(s);
        assert forall|i: int| 0 <= i < xs.len() implies 0 < #[trigger] xs[i] < p() && cong(ys[i], pev(c@, xs[i])) by { assert(s[i] == shares@[i]); assert(on(c@, shares@[i])); }
        assert forall|i: int, j: int| 0 <= i < j < xs.len() implies #[trigger] xs[i] != #[trigger] xs[j] by { assert(shares@[i].0 != shares@[j].0); }
        assert(nodes_ok(xs)); lsum_poly(xs, ys, c@, xs.len() as int); assert(xs.take(xs.len() as int) =~= xs); interpolate(xs, c@);
        cong_trans(lsum(xs, ys, s.len() as int), wsum(xs, |x: int| pev(c@, x) * lw(xs, x)), c@[0]);
    }
    reconstruct_secret(shares, threshold)
}
} fn main() {}
