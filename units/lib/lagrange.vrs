// ---------- Lagrange interpolation at zero ----------
/// the factor of node z in the weight of node x
pub open spec fn lt(x: int, z: int) -> int { if x == z { 1 } else { (0 - z) * inv(x - z) } }
/// the weight of node x over the nodes all
pub open spec fn lw(all: Seq<int>, x: int) -> int decreases all.len() { if all.len() == 0 { 1 } else { lw(all.drop_last(), x) * lt(x, all.last()) } }
pub open spec fn wsum(nodes: Seq<int>, f: spec_fn(int) -> int) -> int decreases nodes.len() { if nodes.len() == 0 { 0 } else { wsum(nodes.drop_last(), f) + f(nodes.last()) } }
/// nodes are distinct and not zero, below p
pub open spec fn nodes_ok(xs: Seq<int>) -> bool { (forall|i: int| 0 <= i < xs.len() ==> 0 < #[trigger] xs[i] < p()) && (forall|i: int, j: int| 0 <= i < j < xs.len() ==> #[trigger] xs[i] != #[trigger] xs[j]) }
pub proof fn lw_first(all: Seq<int>, x: int) requires all.len() > 0 ensures lw(all, x) == lw(all.drop_first(), x) * lt(x, all[0]) decreases all.len()
{
    if all.len() == 1 { assert(all.drop_last().len() == 0 && all.drop_first().len() == 0); assert(lw(all.drop_last(), x) == 1 && lw(all.drop_first(), x) == 1); assert(all[0] == all.last()); }
    else {
        lw_first(all.drop_last(), x);
        assert(all.drop_last().drop_first() =~= all.drop_first().drop_last()); assert(all.drop_first().last() == all.last() && all.drop_last()[0] == all[0]);
        assert(lw(all, x) == lw(all.drop_last(), x) * lt(x, all.last())); assert(lw(all.drop_first(), x) == lw(all.drop_first().drop_last(), x) * lt(x, all.last()));
        let (a, b, c) = (lw(all.drop_last().drop_first(), x), lt(x, all[0]), lt(x, all.last()));
        assert((a * b) * c == (a * c) * b) by(nonlinear_arith);
    }
}
pub proof fn wsum_first(nodes: Seq<int>, f: spec_fn(int) -> int) requires nodes.len() > 0 ensures wsum(nodes, f) == wsum(nodes.drop_first(), f) + f(nodes[0]) decreases nodes.len()
{ if nodes.len() > 1 { wsum_first(nodes.drop_last(), f); assert(nodes.drop_last().drop_first() =~= nodes.drop_first().drop_last()); assert(nodes.drop_first().last() == nodes.last() && nodes.drop_last()[0] == nodes[0]); } else { assert(nodes.drop_last().len() == 0 && nodes.drop_first().len() == 0); assert(wsum(nodes.drop_last(), f) == 0 && wsum(nodes.drop_first(), f) == 0); assert(nodes[0] == nodes.last()); } }
pub proof fn wsum_cong(nodes: Seq<int>, f: spec_fn(int) -> int, g: spec_fn(int) -> int)
    requires p() > 1, forall|i: int| 0 <= i < nodes.len() ==> cong(f(#[trigger] nodes[i]), g(nodes[i]))
    ensures cong(wsum(nodes, f), wsum(nodes, g))
    decreases nodes.len()
{ if nodes.len() > 0 {
    assert forall|i: int| 0 <= i < nodes.drop_last().len() implies cong(f(#[trigger] nodes.drop_last()[i]), g(nodes.drop_last()[i])) by { assert(nodes.drop_last()[i] == nodes[i]); }
    wsum_cong(nodes.drop_last(), f, g); assert(nodes.last() == nodes[nodes.len() - 1]);
    cong_add(wsum(nodes.drop_last(), f), wsum(nodes.drop_last(), g), f(nodes.last()), g(nodes.last())); } }
pub proof fn wsum_lin(nodes: Seq<int>, f: spec_fn(int) -> int, a: int, g: spec_fn(int) -> int, b: int, h: spec_fn(int) -> int)
    requires forall|x: int| #[trigger] f(x) == a * g(x) + b * h(x)
    ensures wsum(nodes, f) == a * wsum(nodes, g) + b * wsum(nodes, h)
    decreases nodes.len()
{ if nodes.len() > 0 { wsum_lin(nodes.drop_last(), f, a, g, b, h); let (u, v, w, z) = (wsum(nodes.drop_last(), g), wsum(nodes.drop_last(), h), g(nodes.last()), h(nodes.last()));
    assert(a * (u + w) + b * (v + z) == (a * u + b * v) + (a * w + b * z)) by(nonlinear_arith); }
  else { assert(a * 0 + b * 0 == 0) by(nonlinear_arith); } }
/// the weighted sum of the m-th powers
pub open spec fn la(nodes: Seq<int>, all: Seq<int>, m: nat) -> int { wsum(nodes, |x: int| pow(x, m) * lw(all, x)) }
/// removing node z (the product w*lt(x, z) is the weight of x): (x - z) * weight = -z * weight without z
pub proof fn lt_step(w: int, x: int, z: int) requires 0 < x < p(), 0 < z < p(), x != z, p() > 1 ensures cong((x - z) * (w * lt(x, z)), (0 - z) * w)
{
    diff_nonzero(x, z); inv_exists(x - z); let i = inv(x - z); let e = (x - z) * i;
    cong_mul(e, 1, (0 - z) * w, (0 - z) * w);
    assert((x - z) * (w * ((0 - z) * i)) == ((x - z) * i) * ((0 - z) * w)) by(nonlinear_arith);
    assert(1 * ((0 - z) * w) == (0 - z) * w) by(nonlinear_arith);
}
/// A(all, m) - z A(all, m-1) = -z A(all without z, m-1), z the last (or first) node
pub proof fn la_step(all: Seq<int>, m: nat, first: bool)
    requires nodes_ok(all), all.len() >= 1, m >= 1, p() > 1
    ensures ({ let z = if first { all[0] } else { all.last() }; let rest = if first { all.drop_first() } else { all.drop_last() };
        cong(la(all, all, m) - z * la(all, all, (m - 1) as nat), (0 - z) * la(rest, rest, (m - 1) as nat)) })
{
    let z = if first { all[0] } else { all.last() }; let rest = if first { all.drop_first() } else { all.drop_last() };
    let k = (m - 1) as nat;
    let f = |x: int| pow(x, m) * lw(all, x); let g = |x: int| pow(x, k) * lw(all, x);
    let h = |x: int| pow(x, k) * ((x - z) * lw(all, x));
    assert forall|x: int| #[trigger] h(x) == 1 * f(x) + (0 - z) * g(x) by { pow_s(x, k); let (q, w) = (pow(x, k), lw(all, x));
        assert(q * ((x - z) * w) == 1 * ((x * q) * w) + (0 - z) * (q * w)) by(nonlinear_arith); }
    wsum_lin(all, h, 1, f, 0 - z, g);
    assert(1 * la(all, all, m) + (0 - z) * la(all, all, k) == la(all, all, m) - z * la(all, all, k)) by(nonlinear_arith);
    // the term of z itself vanishes
    if first { wsum_first(all, h); }
    assert(h(z) == 0) by { let (q, w) = (pow(z, k), lw(all, z)); assert(q * ((z - z) * w) == 0) by(nonlinear_arith); }
    assert(wsum(all, h) == wsum(rest, h));
    let r = |x: int| pow(x, k) * lw(rest, x); let rz = |x: int| (0 - z) * r(x) + 0 * r(x);
    assert forall|i: int| 0 <= i < rest.len() implies cong(h(#[trigger] rest[i]), rz(rest[i])) by {
        let x = rest[i]; let w = lw(rest, x); let q = pow(x, k);
        if first { assert(x == all[i + 1]); lw_first(all, x); } else { assert(x == all[i]); }
        lt_step(w, x, z); cong_mul(q, q, (x - z) * (w * lt(x, z)), (0 - z) * w);
        assert(q * ((0 - z) * w) == (0 - z) * (q * w) + 0 * (q * w)) by(nonlinear_arith);
    }
    wsum_cong(rest, h, rz); wsum_lin(rest, rz, 0 - z, r, 0, r);
    assert((0 - z) * wsum(rest, r) + 0 * wsum(rest, r) == (0 - z) * la(rest, rest, k)) by(nonlinear_arith) requires wsum(rest, r) == la(rest, rest, k);
}
pub proof fn rest_ok(all: Seq<int>) requires nodes_ok(all), all.len() > 0 ensures nodes_ok(all.drop_last()), nodes_ok(all.drop_first())
{ assert forall|i: int| 0 <= i < all.drop_last().len() implies 0 < #[trigger] all.drop_last()[i] < p() by { assert(all.drop_last()[i] == all[i]); }
  assert forall|i: int| 0 <= i < all.drop_first().len() implies 0 < #[trigger] all.drop_first()[i] < p() by { assert(all.drop_first()[i] == all[i + 1]); }
  assert forall|i: int, j: int| 0 <= i < j < all.drop_last().len() implies #[trigger] all.drop_last()[i] != #[trigger] all.drop_last()[j] by { assert(all[i] != all[j]); }
  assert forall|i: int, j: int| 0 <= i < j < all.drop_first().len() implies #[trigger] all.drop_first()[i] != #[trigger] all.drop_first()[j] by { assert(all[i + 1] != all[j + 1]); } }
/// the weights sum to one
pub proof fn la_zero(all: Seq<int>)
    requires nodes_ok(all), all.len() >= 1, p() > 1
    ensures cong(la(all, all, 0), 1)
    decreases all.len()
{
    let a0 = la(all, all, 0); let a1 = la(all, all, 1);
    if all.len() == 1 {
        let x = all[0]; let f = |x: int| pow(x, 0) * lw(all, x);
        assert(all.drop_last().len() == 0); assert(lw(all.drop_last(), x) == 1); pow0(x);
        assert(wsum(all.drop_last(), f) == 0);
        assert(f(x) == 1) by(nonlinear_arith) requires f(x) == pow(x, 0) * lw(all, x), pow(x, 0) == 1, lw(all, x) == 1 * 1;
    } else {
        rest_ok(all); la_step(all, 1, true); la_step(all, 1, false); la_zero(all.drop_first()); la_zero(all.drop_last());
        let (x, z) = (all[0], all.last());
        cong_mul(0 - x, 0 - x, la(all.drop_first(), all.drop_first(), 0), 1); cong_mul(0 - z, 0 - z, la(all.drop_last(), all.drop_last(), 0), 1);
        // a1 - x a0 = -x and a1 - z a0 = -z: (z - x) a0 = z - x
        cong_sub(a1 - x * a0, (0 - x) * 1, a1 - z * a0, (0 - z) * 1);
        assert((a1 - x * a0) - (a1 - z * a0) == (z - x) * a0) by(nonlinear_arith);
        assert((0 - x) * 1 - (0 - z) * 1 == (z - x) * 1) by(nonlinear_arith);
        assert(all[0] != all[all.len() - 1]); diff_nonzero(z, x); cong_cancel(z - x, a0, 1);
    }
}
/// higher powers vanish
pub proof fn la_high(all: Seq<int>, m: nat)
    requires nodes_ok(all), 1 <= m < all.len(), p() > 1
    ensures cong(la(all, all, m), 0)
    decreases m
{
    rest_ok(all); la_step(all, m, false);
    let z = all.last(); let k = (m - 1) as nat; let rest = all.drop_last();
    let (am, ak, bk) = (la(all, all, m), la(all, all, k), la(rest, rest, k));
    if m == 1 { la_zero(all); la_zero(rest); } else { la_high(all, k); la_high(rest, k); }
    let v = if m == 1 { 1int } else { 0int };
    cong_mul(z, z, ak, v); cong_mul(0 - z, 0 - z, bk, v);
    cong_trans(am - z * ak, (0 - z) * bk, (0 - z) * v);
    cong_add(am - z * ak, (0 - z) * v, z * ak, z * v);
    assert((0 - z) * v + z * v == 0) by(nonlinear_arith);
}
/// interpolation at zero of a polynomial of low degree is its constant term
pub proof fn interpolate(all: Seq<int>, c: Seq<int>)
    requires nodes_ok(all), 1 <= c.len() <= all.len(), p() > 1
    ensures cong(wsum(all, |x: int| pev(c, x) * lw(all, x)), c[0])
    decreases c.len()
{
    let d = c.drop_last(); let n = (c.len() - 1) as nat; let v = c.last();
    let f = |x: int| pev(c, x) * lw(all, x); let g = |x: int| pev(d, x) * lw(all, x); let h = |x: int| pow(x, n) * lw(all, x);
    assert forall|x: int| #[trigger] f(x) == 1 * g(x) + v * h(x) by { let (a, q, w) = (pev(d, x), pow(x, n), lw(all, x)); assert((a + v * q) * w == 1 * (a * w) + v * (q * w)) by(nonlinear_arith); }
    wsum_lin(all, f, 1, g, v, h);
    if c.len() == 1 {
        la_zero(all); cong_mul(v, v, la(all, all, 0), 1);
        assert forall|x: int| #[trigger] g(x) == 0 * g(x) + 0 * g(x) by { assert(pev(d, x) == 0); assert(0 * lw(all, x) == 0) by(nonlinear_arith); }
        wsum_lin(all, g, 0, g, 0, g);
        assert(wsum(all, g) == 0) by(nonlinear_arith) requires wsum(all, g) == 0 * wsum(all, g) + 0 * wsum(all, g);
        assert(1 * wsum(all, g) + v * wsum(all, h) == v * la(all, all, 0)) by(nonlinear_arith) requires wsum(all, g) == 0, wsum(all, h) == la(all, all, 0);
    } else {
        interpolate(all, d); la_high(all, n); cong_mul(v, v, la(all, all, n), 0);
        cong_add(wsum(all, g), c[0], v * la(all, all, n), v * 0);
        assert(1 * wsum(all, g) + v * wsum(all, h) == wsum(all, g) + v * la(all, all, n)) by(nonlinear_arith) requires wsum(all, h) == la(all, all, n);
        assert(c[0] + v * 0 == c[0]) by(nonlinear_arith);
    }
}
