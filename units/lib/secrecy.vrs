// ---------- S02: fewer than threshold shares fit every secret equally often ----------
pub proof fn pev_push0(c: Seq<int>, x: int) ensures pev(c.push(0), x) == pev(c, x) { assert(c.push(0).drop_last() =~= c); assert(0 * pow(x, c.len()) == 0) by(nonlinear_arith); }
/// g times (1 - a X)
pub open spec fn mul_lin(g: Seq<int>, a: int) -> Seq<int> { plin(1, g.push(0), 0 - a, seq![0int] + g) }
/// the polynomial with value one at zero that vanishes on the nodes
pub open spec fn van(xs: Seq<int>) -> Seq<int> decreases xs.len() { if xs.len() == 0 { seq![1int] } else { mul_lin(van(xs.drop_last()), inv(xs.last())) } }
pub proof fn van_len(xs: Seq<int>) ensures van(xs).len() == xs.len() + 1, van(xs)[0] == 1 decreases xs.len()
{ if xs.len() > 0 { van_len(xs.drop_last()); let g = van(xs.drop_last()); let a = inv(xs.last()); assert(g.push(0)[0] == 1 && (seq![0int] + g)[0] == 0); assert(1 * 1 + (0 - a) * 0 == 1) by(nonlinear_arith); } }
pub proof fn van_root(xs: Seq<int>, x: int, i: int)
    requires p() > 1, 0 <= i < xs.len(), xs[i] == x, forall|j: int| 0 <= j < xs.len() ==> 0 < #[trigger] xs[j] < p()
    ensures cong(pev(van(xs), x), 0)
    decreases xs.len()
{
    let d = xs.drop_last(); let g = van(d); let a = inv(xs.last());
    pev_lin(1, g.push(0), 0 - a, seq![0int] + g, x); pev_push0(g, x); pev_shift(g, x);
    let v = pev(g, x);
    assert(pev(van(xs), x) == v * (1 - a * x)) by(nonlinear_arith) requires pev(van(xs), x) == 1 * v + (0 - a) * (x * v);
    if i == xs.len() - 1 {
        lemma_small_mod(x, p()); inv_exists(x); cong_sub(1, 1, x * a, 1); assert(x * a == a * x) by(nonlinear_arith); cong_mul(v, v, 1 - a * x, 0); assert(v * 0 == 0);
    } else {
        assert forall|j: int| 0 <= j < d.len() implies 0 < #[trigger] d[j] < p() by { assert(d[j] == xs[j]); }
        assert(d[i] == xs[i]); van_root(d, x, i); cong_mul(v, 0, 1 - a * x, 1 - a * x); assert(0 * (1 - a * x) == 0) by(nonlinear_arith);
    }
}
pub open spec fn pad(c: Seq<int>, t: nat) -> Seq<int> { Seq::new(t, |k: int| if k < c.len() { c[k] } else { 0 }) }
pub proof fn pev_pad(c: Seq<int>, t: nat, x: int) requires t >= c.len() ensures pev(pad(c, t), x) == pev(c, x) decreases t
{ if t == c.len() { assert(pad(c, t) =~= c); } else { pev_pad(c, (t - 1) as nat, x); pev_push0(pad(c, (t - 1) as nat), x); assert(pad(c, t) =~= pad(c, (t - 1) as nat).push(0)); } }
/// what is added to the coefficients to move from secret s to secret s2 without changing the shares at the nodes
pub open spec fn shift_of(xs: Seq<int>, t: nat, s: int, s2: int) -> Seq<int> { Seq::new(t, |k: int| (s2 - s) * pad(van(xs), t)[k]) }
pub open spec fn move_by(c: Seq<int>, d: Seq<int>) -> Seq<int> { Seq::new(c.len(), |k: int| md(c[k] + d[k])) }
/// the polynomials a sharing of s can use
pub open spec fn choice(c: Seq<int>, t: nat, s: int) -> bool { c.len() == t && c[0] == s && forall|k: int| 0 <= k < t ==> 0 <= #[trigger] c[k] < p() }
/// moving by the shift is a bijection between the choices for s and the choices for s2 that keeps every share at the nodes
pub proof fn secrecy(xs: Seq<int>, t: nat, s: int, s2: int, c: Seq<int>)
    requires xs.len() < t, forall|j: int| 0 <= j < xs.len() ==> 0 < #[trigger] xs[j] < p(), 0 <= s < p(), 0 <= s2 < p(), choice(c, t, s)
    ensures choice(move_by(c, shift_of(xs, t, s, s2)), t, s2),
        forall|i: int| 0 <= i < xs.len() ==> md(pev(move_by(c, shift_of(xs, t, s, s2)), #[trigger] xs[i])) == md(pev(c, xs[i])),
        move_by(move_by(c, shift_of(xs, t, s, s2)), shift_of(xs, t, s2, s)) == c
{
    p_prime(); van_len(xs);
    let g = pad(van(xs), t); let d = shift_of(xs, t, s, s2); let c2 = move_by(c, d); let back = shift_of(xs, t, s2, s);
    assert((s2 - s) * 1 == s2 - s); assert(c2[0] == md(s + (s2 - s))); lemma_small_mod(s2, p());
    assert forall|k: int| 0 <= k < t implies 0 <= #[trigger] c2[k] < p() by { vstd::arithmetic::div_mod::lemma_mod_bound(c[k] + d[k], p()); }
    assert forall|i: int| 0 <= i < xs.len() implies md(pev(c2, #[trigger] xs[i])) == md(pev(c, xs[i])) by {
        let x = xs[i];
        let e = plin(1, c, s2 - s, g);
        assert forall|k: int| 0 <= k < t implies cong(#[trigger] c2[k], e[k]) by { cong_mod(c[k] + d[k]); assert(1 * c[k] == c[k]); }
        pev_cong(c2, e, x, x); pev_lin(1, c, s2 - s, g, x); pev_pad(van(xs), t, x); van_root(xs, x, i);
        cong_mul(s2 - s, s2 - s, pev(van(xs), x), 0); assert((s2 - s) * 0 == 0) by(nonlinear_arith);
        cong_add(pev(c, x), pev(c, x), (s2 - s) * pev(van(xs), x), 0); assert(1 * pev(c, x) == pev(c, x));
    }
    assert forall|k: int| 0 <= k < t implies #[trigger] move_by(c2, back)[k] == c[k] by {
        assert(d[k] + back[k] == 0) by(nonlinear_arith) requires d[k] == (s2 - s) * g[k], back[k] == (s - s2) * g[k];
        cong_mod(c[k] + d[k]); cong_add(c2[k], c[k] + d[k], back[k], back[k]); lemma_small_mod(c[k], p());
    }
    assert(move_by(c2, back) =~= c);
}
