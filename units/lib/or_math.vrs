// ---------- the polynomial through (1, 0), (2, 1), .., (n, 1) by Newton interpolation ----------
pub open spec fn cj(j: int) -> int { if j == 0 { 0 } else { 1 } }
pub open spec fn mono(i: int, jj: int, kk: int) -> int decreases jj { if jj <= 0 { 0 } else { mono(i, jj - 1, kk) + ent(i, jj - 1, kk) * cj(jj - 1) } }
pub open spec fn dd(k: int, jj: int) -> int decreases jj { if jj <= 0 { 0 } else { dd(k, jj - 1) + lo(k, jj - 1) * cj(jj - 1) } }
pub open spec fn comb(i: int, kk: int, jj: int) -> int decreases kk { if kk <= 0 { 0 } else { comb(i, kk - 1, jj) + nco(i, kk - 1) * dd(kk - 1, jj) } }
pub open spec fn nval(c: int, x: int) -> int decreases c { if c <= 0 { 1 } else { nval(c - 1, x) * (x - c) } }
pub open spec fn npoly(c: int, n: nat) -> Seq<int> { Seq::new(n, |r: int| nco(r, c)) }
pub open spec fn cpoly(kk: int, jj: int, n: nat) -> Seq<int> { Seq::new(n, |i: int| comb(i, kk, jj)) }
pub open spec fn fval(kk: int, jj: int, x: int) -> int decreases kk { if kk <= 0 { 0 } else { fval(kk - 1, jj, x) + dd(kk - 1, jj) * nval(kk - 1, x) } }
pub open spec fn fact(k: int) -> int decreases k { if k <= 0 { 1 } else { k * fact(k - 1) } }
/// signed binomial coefficients
pub open spec fn bb(k: int, j: int) -> int decreases k { if k <= 0 { if j == 0 { 1 } else { 0 } } else { bb(k - 1, j - 1) - bb(k - 1, j) } }
pub open spec fn bs(k: int, jj: int) -> int decreases jj { if jj <= 0 { 0 } else { bs(k, jj - 1) + bb(k, jj - 1) } }
pub open spec fn pr(k: int, t: int) -> int decreases k { if k <= 0 { 1 } else { pr(k - 1, t) * (k - t) } }
pub proof fn comb_step(i: int, kk: int, jj: int) requires jj >= 1 ensures comb(i, kk, jj) == comb(i, kk, jj - 1) + ent(i, jj - 1, kk) * cj(jj - 1) decreases kk
{
    if kk > 0 {
        comb_step(i, kk - 1, jj); let (a, d, l, c) = (nco(i, kk - 1), dd(kk - 1, jj - 1), lo(kk - 1, jj - 1), cj(jj - 1)); let e = ent(i, jj - 1, kk - 1);
        assert(a * (d + l * c) == a * d + (a * l) * c) by(nonlinear_arith); assert((e + a * l) * c == e * c + (a * l) * c) by(nonlinear_arith);
    } else { assert(0 * cj(jj - 1) == 0); }
}
pub proof fn mono_comb(i: int, jj: int, kk: int) ensures mono(i, jj, kk) == comb(i, kk, jj) decreases jj
{ if jj > 0 { mono_comb(i, jj - 1, kk); comb_step(i, kk, jj); } else { comb_zero(i, kk, jj); } }
pub proof fn comb_zero(i: int, kk: int, jj: int) requires jj <= 0 ensures comb(i, kk, jj) == 0 decreases kk
{ if kk > 0 { comb_zero(i, kk - 1, jj); assert(nco(i, kk - 1) * 0 == 0); } }
pub proof fn nco_high(r: int, c: int) requires r > c >= 0 ensures nco(r, c) == 0 decreases c
{ if c > 0 { nco_high(r - 1, c - 1); nco_high(r, c - 1); assert(c * 0 == 0); } }
pub proof fn npoly_val(c: int, n: nat, x: int) requires 0 <= c < n ensures pev(npoly(c, n), x) == nval(c, x) decreases c
{
    if c == 0 { assert(npoly(0, n) =~= pconst(1, n)); pev_const(1, n, x); } else {
        let a = seq![0int] + npoly(c - 1, (n - 1) as nat); let b = npoly(c - 1, n);
        npoly_val(c - 1, (n - 1) as nat, x); npoly_val(c - 1, n, x); pev_shift(npoly(c - 1, (n - 1) as nat), x);
        assert forall|r: int| 0 <= r < n implies nco(r, c) == 1 * a[r] + (0 - c) * b[r] by {
            if r == c { nco_high(c, c - 1); assert((0 - c) * 0 == 0); }
            if r == 0 { assert(nco(-1, c - 1) == 0); }
            assert((0 - c) * b[r] == 0 - c * b[r]) by(nonlinear_arith);
        }
        assert(npoly(c, n) =~= plin(1, a, 0 - c, b)); pev_lin(1, a, 0 - c, b, x);
        let v = nval(c - 1, x); assert(1 * (x * v) + (0 - c) * v == v * (x - c)) by(nonlinear_arith);
    }
}
pub proof fn cpoly_val(kk: int, jj: int, n: nat, x: int) requires 0 <= kk <= n, n >= 1 ensures pev(cpoly(kk, jj, n), x) == fval(kk, jj, x) decreases kk
{
    if kk == 0 { assert(cpoly(0, jj, n) =~= pconst(0, n)); pev_const(0, n, x); } else {
        let (a, b, d) = (cpoly(kk - 1, jj, n), npoly(kk - 1, n), dd(kk - 1, jj)); cpoly_val(kk - 1, jj, n, x); npoly_val(kk - 1, n, x);
        assert forall|i: int| 0 <= i < n implies comb(i, kk, jj) == 1 * a[i] + d * b[i] by { assert(nco(i, kk - 1) * d == d * nco(i, kk - 1)) by(nonlinear_arith); }
        assert(cpoly(kk, jj, n) =~= plin(1, a, d, b)); pev_lin(1, a, d, b, x);
    }
}
pub proof fn bb_out(k: int, j: int) requires k >= 0, j < 0 || j > k ensures bb(k, j) == 0 decreases k { if k > 0 { bb_out(k - 1, j - 1); bb_out(k - 1, j); } }
pub proof fn bb_diag(k: int) requires k >= 0 ensures bb(k, k) == 1 decreases k { if k > 0 { bb_diag(k - 1); bb_out(k - 1, k); } }
pub proof fn bb_id(k: int, j: int) requires k >= 1 ensures (j - k) * bb(k, j) == k * bb(k - 1, j) decreases k
{
    if k == 1 { assert(bb(0, j - 1) == (if j == 1 { 1int } else { 0int })); assert(bb(0, j) == (if j == 0 { 1int } else { 0int })); assert(bb(1, j) == bb(0, j - 1) - bb(0, j));
        let b = bb(1, j); let c = bb(0, j); assert((j - 1) * b == 1 * c) by(nonlinear_arith) requires c == (if j == 0 { 1int } else { 0 }), b == (if j == 1 { 1int } else { 0 }) - c; } else {
        bb_id(k - 1, j - 1); bb_id(k - 1, j);
        let (u, v, u2, v2) = (bb(k - 1, j - 1), bb(k - 1, j), bb(k - 2, j - 1), bb(k - 2, j));
        assert((j - k) * (u - v) == k * v) by(nonlinear_arith) requires ((j - 1) - (k - 1)) * u == (k - 1) * u2, (j - (k - 1)) * v == (k - 1) * v2, v == u2 - v2;
    }
}
pub proof fn wd_shift(m: int, k: int) requires 1 <= m <= k ensures wd(m, k) == k * wd(m - 1, k - 1) decreases m
{ if m == 1 { assert(wd(0, k) == 1 && wd(0, k - 1) == 1); assert(1 * (k - 0) == k * 1); } else { wd_shift(m - 1, k); let w = wd(m - 2, k - 1); assert((k * w) * (k - (m - 1)) == k * (w * ((k - 1) - (m - 2)))) by(nonlinear_arith); } }
pub proof fn wd_diag(k: int) requires k >= 0 ensures wd(k, k) == fact(k) decreases k { if k > 0 { wd_shift(k, k); wd_diag(k - 1); } }
pub proof fn wb(k: int, j: int) requires 0 <= j <= k ensures wd(k + 1, j) * bb(k, j) == fact(k) decreases k
{
    if j == k { wd_diag(k); bb_diag(k); assert(wd(k + 1, k) == wd(k, k)); assert(fact(k) * 1 == fact(k)); } else {
        wb(k - 1, j); bb_id(k, j); let (w, b, c) = (wd(k, j), bb(k, j), bb(k - 1, j));
        assert((w * (j - k)) * b == k * (w * c)) by(nonlinear_arith) requires (j - k) * b == k * c;
    }
}
pub proof fn wd_nonzero(k: int, j: int) requires is_prime(p()), 0 <= k <= p(), 0 <= j < p() ensures md(wd(k, j)) != 0 decreases k
{ if k <= 0 { lemma_small_mod(1, p()); } else { wd_nonzero(k - 1, j); if k - 1 != j { diff_nonzero(j, k - 1); prime_product(wd(k - 1, j), j - (k - 1)); } } }
pub proof fn fact_nonzero(k: int) requires is_prime(p()), 0 <= k < p() ensures md(fact(k)) != 0 decreases k
{ if k <= 0 { lemma_small_mod(1, p()); } else { fact_nonzero(k - 1); lemma_small_mod(k, p()); prime_product(k, fact(k - 1)); } }
/// k! times an entry of L is a signed binomial coefficient
pub proof fn lo_val(k: int, j: int) requires is_prime(p()), 0 <= k < p(), 0 <= j ensures cong(fact(k) * lo(k, j), bb(k, j))
{
    if j > k { bb_out(k, j); assert(fact(k) * 0 == 0); } else {
        let (w, b) = (wd(k + 1, j), bb(k, j)); wb(k, j); wd_nonzero(k + 1, j); inv_exists(w); let i = inv(w);
        cong_mul(w * i, 1, b, b); assert((w * b) * i == (w * i) * b) by(nonlinear_arith); assert(1 * b == b);
    }
}
pub proof fn bs_val(k: int, jj: int) requires k >= 1, jj >= 1 ensures bs(k, jj) == 0 - bb(k - 1, jj - 1) decreases jj
{ if jj == 1 { assert(bs(k, 0) == 0); bb_out(k - 1, -1); } else { bs_val(k, jj - 1); } }
pub proof fn dd_bs(k: int, jj: int) requires is_prime(p()), 0 <= k < p(), jj >= 1 ensures cong(fact(k) * dd(k, jj), bs(k, jj) - bb(k, 0)) decreases jj
{
    if jj == 1 { assert(dd(k, 0) == 0); assert(lo(k, 0) * 0 == 0); assert(fact(k) * 0 == 0); assert(bs(k, 0) == 0); } else {
        dd_bs(k, jj - 1); lo_val(k, jj - 1); let (f, d, l) = (fact(k), dd(k, jj - 1), lo(k, jj - 1));
        assert(f * (d + l * 1) == f * d + f * l) by(nonlinear_arith); cong_add(f * d, bs(k, jj - 1) - bb(k, 0), f * l, bb(k, jj - 1));
    }
}
pub proof fn dd_val(k: int, jj: int) requires is_prime(p()), 1 <= k < p(), jj > k ensures cong(fact(k) * dd(k, jj), 0 - bb(k, 0))
{ dd_bs(k, jj); bs_val(k, jj); bb_out(k - 1, jj - 1); }
pub proof fn sign_val(k: int, t: int) requires k >= 1 ensures bb(k, 0) * nval(k, t + 1) == 0 - t * pr(k - 1, t) decreases k
{
    bb_out(k - 1, -1);
    if k == 1 { assert(bb(0, 0) == 1); assert(bb(1, 0) == bb(0, -1) - bb(0, 0)); assert(nval(0, t + 1) == 1); assert(nval(1, t + 1) == 1 * (t + 1 - 1)); assert(pr(0, t) == 1); } else {
        sign_val(k - 1, t); let (b, v, q) = (bb(k - 1, 0), nval(k - 1, t + 1), pr(k - 2, t));
        assert((0 - b) * (v * (t + 1 - k)) == 0 - t * (q * (k - 1 - t))) by(nonlinear_arith) requires b * v == 0 - t * q;
    }
}
pub proof fn pr_zero(k: int, t: int) requires 1 <= t <= k ensures pr(k, t) == 0 decreases k
{ if t == k { assert(pr(k - 1, t) * 0 == 0); } else { pr_zero(k - 1, t); assert(0 * (k - t) == 0); } }
pub proof fn pr_fact(k: int) ensures pr(k, 0) == fact(k) decreases k { if k > 0 { pr_fact(k - 1); assert(fact(k - 1) * (k - 0) == k * fact(k - 1)) by(nonlinear_arith); } }
pub proof fn newton_sum(k: int, jj: int, t: int) requires is_prime(p()), 0 <= k < p(), jj > k ensures cong(fact(k) * fval(k + 1, jj, t + 1), fact(k) - pr(k, t)) decreases k
{
    if k == 0 {
        dd_bs(0, jj); assert(fval(0, jj, t + 1) == 0); assert(nval(0, t + 1) == 1); assert(bs(0, jj) == 1) by { bs_first(jj); } assert(bb(0, 0) == 1);
        let d = dd(0, jj); assert(1 * (0 + d * 1) == 1 * d);
    } else {
        newton_sum(k - 1, jj, t); dd_val(k, jj); sign_val(k, t);
        let (f0, g, d, v, b, q) = (fact(k - 1), fval(k, jj, t + 1), dd(k, jj), nval(k, t + 1), bb(k, 0), pr(k - 1, t));
        let f = fact(k); assert(f == k * f0);
        assert(f * (g + d * v) == k * (f0 * g) + (f * d) * v) by(nonlinear_arith) requires f == k * f0;
        cong_mul(k, k, f0 * g, f0 - q); cong_mul(f * d, 0 - b, v, v); cong_add(k * (f0 * g), k * (f0 - q), (f * d) * v, (0 - b) * v);
        assert(k * (f0 - q) + (0 - b) * v == f - q * (k - t)) by(nonlinear_arith) requires f == k * f0, b * v == 0 - t * q;
    }
}
pub proof fn bs_first(jj: int) requires jj >= 1 ensures bs(0, jj) == 1 decreases jj { if jj > 1 { bs_first(jj - 1); } else { assert(bs(0, 0) == 0); } }
pub open spec fn coefs(n: nat) -> Seq<int> { Seq::new(n, |i: int| mono(i, n as int, n as int)) }
/// the interpolated polynomial is the OR: 0 at 1, and 1 at 2, .., n
pub proof fn or_poly(n: nat, t: int) requires is_prime(p()), 1 <= n <= p(), 0 <= t < n ensures cong(pev(coefs(n), t + 1), if t == 0 { 0int } else { 1int })
{
    let k = n - 1; let v = fval(n as int, n as int, t + 1);
    assert forall|i: int| 0 <= i < n implies #[trigger] coefs(n)[i] == cpoly(n as int, n as int, n)[i] by { mono_comb(i, n as int, n as int); }
    assert(coefs(n) =~= cpoly(n as int, n as int, n)); cpoly_val(n as int, n as int, n, t + 1); newton_sum(k, n as int, t); fact_nonzero(k);
    let f = fact(k);
    if t == 0 { pr_fact(k); assert(f * 0 == 0); cong_cancel(f, v, 0); } else { pr_zero(k, t); assert(f * 1 == f); cong_cancel(f, v, 1); }
}
