//@alias BEAVER = jester_sharing/src/multiplication/beaver_randomization_multiplication.rs
/// a multiplication uses up triples and opens masked operands; it does nothing else
pub open spec fn quiet(a: Pr, b: Pr) -> bool { a.given() == b.given() && a.parties() == b.parties() }
/// one multiplication took place: one triple used up, the two masked operands opened, nothing else
pub open spec fn one_mult(a: Pr, b: Pr, x: int, y: int) -> bool { quiet(a, b) && exists|t: (Sh, Sh, Sh)| b.triples() == a.triples().push(t) && b.opened() == a.opened().insert(md(x - #[trigger] t.0.sec())).insert(md(y - t.1.sec())) }
/// what may be opened when the pairs are multiplied with these triples: the masked operands, and nothing else
pub open spec fn masked(ps: Seq<(Sh, Sh)>, ts: Seq<(Sh, Sh, Sh)>, n: int) -> Multiset<int> decreases n
{ if n <= 0 { Multiset::empty() } else { masked(ps, ts, n - 1).insert(md(ps[n - 1].0.sec() - ts[n - 1].0.sec())).insert(md(ps[n - 1].1.sec() - ts[n - 1].1.sec())) } }
pub open spec fn products(ps: Seq<(Sh, Sh)>, r: Seq<Sh>) -> bool { r.len() == ps.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).sec() == md(ps[i].0.sec() * ps[i].1.sec()) }
/// (delta, epsilon) opened for one pair
pub open spec fn opened_pair(o: (F, F), q: (Sh, Sh), t: (Sh, Sh, Sh)) -> bool { o.0@ == md(q.1.sec() - t.1.sec()) && o.1@ == md(q.0.sec() - t.0.sec()) }
/// Beaver's identity: c + b*e + a*d + e*d with e = x - a, d = y - b and c = a*b is x*y
proof fn sum_flat(a: int, b: int, c: int, d: int) requires p() > 1
    ensures md(md(md(a + b) + c) + d) == md(a + b + c + d), md(md(a + b) + md(c + d)) == md(a + b + c + d), md(md(c + md(a + b)) + d) == md(a + b + c + d)
{
    let q = p();
    vstd::arithmetic::div_mod::lemma_add_mod_noop(a + b, c, q); vstd::arithmetic::div_mod::lemma_add_mod_noop(md(a + b), c, q);
    vstd::arithmetic::div_mod::lemma_mod_twice(a + b, q); vstd::arithmetic::div_mod::lemma_mod_twice(c, q);
    assert(md(md(a + b) + c) == md(a + b + c));
    vstd::arithmetic::div_mod::lemma_add_mod_noop(a + b + c, d, q); vstd::arithmetic::div_mod::lemma_add_mod_noop(md(a + b + c), d, q); vstd::arithmetic::div_mod::lemma_mod_twice(a + b + c, q);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(a + b, c + d, q);
}
pub proof fn beaver(x: int, y: int, a: int, b: int, c: int, e: int, d: int)
    requires p() > 1, c == md(a * b), e == md(x - a), d == md(y - b)
    ensures md(md(md(c + md(b * e)) + md(a * d)) + md(e * d)) == md(x * y), e * d == d * e, b * e == e * b, a * d == d * a,
        // in any order of the terms
        md(md(md(c + md(a * d)) + md(b * e)) + md(e * d)) == md(x * y), md(md(md(md(a * d) + md(b * e)) + c) + md(e * d)) == md(x * y), md(md(c + md(md(a * d) + md(b * e))) + md(e * d)) == md(x * y),
        md(md(md(c + md(e * d)) + md(b * e)) + md(a * d)) == md(x * y), md(md(md(c + md(e * d)) + md(a * d)) + md(b * e)) == md(x * y), md(md(c + md(b * e)) + md(md(a * d) + md(e * d))) == md(x * y),
        md(md(c + md(a * d)) + md(md(b * e) + md(e * d))) == md(x * y)
{
    let (u, v, w) = (md(b * e), md(a * d), md(e * d));
    sum_flat(c, u, v, w); sum_flat(c, v, u, w); sum_flat(v, u, c, w); sum_flat(c, w, u, v); sum_flat(c, w, v, u);
    assert(e * d == d * e && b * e == e * b && a * d == d * a) by(nonlinear_arith);
    let (e0, d0) = (x - a, y - b);
    cong_mod(a * b); cong_mod(e0); cong_mod(d0);
    cong_mul(b, b, e, e0); cong_mod(b * e); cong_trans(md(b * e), b * e, b * e0); cong_add(c, a * b, md(b * e), b * e0);
    cong_mul(a, a, d, d0); cong_mod(a * d); cong_trans(md(a * d), a * d, a * d0);
    cong_mul(e, e0, d, d0); cong_mod(e * d); cong_trans(md(e * d), e * d, e0 * d0);
    let s1 = c + md(b * e); cong_mod(s1); cong_trans(md(s1), s1, a * b + b * e0);
    let s2 = md(s1) + md(a * d); cong_add(md(s1), a * b + b * e0, md(a * d), a * d0); cong_mod(s2); cong_trans(md(s2), s2, a * b + b * e0 + a * d0);
    cong_add(md(s2), a * b + b * e0 + a * d0, md(e * d), e0 * d0);
    assert(a * b + b * e0 + a * d0 + e0 * d0 == x * y) by(nonlinear_arith) requires e0 == x - a, d0 == y - b;
}
impl Pr {
//@fn BEAVER UnboundedMultiplicationScheme for BeaverRerandomizationMultiplication::unbounded_multiply | async chain vis=pub nogenerics nowhere
//@sub P => Pr
//@sub P:: => Pr::
//@sub S => Sh
//@sub T => F
//@elem 1 (F, F)
//@elem 3 Sh
//@spec
    ensures products(pairs@, r@), exists|ts: Seq<(Sh, Sh, Sh)>| ts.len() == pairs@.len() && final(protocol).triples() == old(protocol).triples() + ts && final(protocol).opened() == old(protocol).opened().add(#[trigger] masked(pairs@, ts, ts.len() as int)), quiet(*old(protocol), *final(protocol))
//@loop 1
    invariant quiet(*old(protocol), *protocol), __n1 == pairs@.len(), pairs_clone@ == pairs@, ts == beaver_triples@, __s2@ == ts, ts.len() == pairs@.len(), __c1@.len() == __i1, p() > 1,
        protocol.triples() == old(protocol).triples() + ts, protocol.opened() == old(protocol).opened().add(masked(pairs@, ts, __i1 as int)),
        forall|i: int| 0 <= i < __c1@.len() ==> opened_pair(#[trigger] __c1@[i], pairs@[i], ts[i])
//@at loop 1 before
    proof { p_prime(); same3(ts, __s2@); assert(masked(pairs@, ts, 0) =~= Multiset::empty()); assert(protocol.opened() =~= old(protocol).opened().add(masked(pairs@, ts, 0))); }
//@at loop 1 start
    let ghost o0 = protocol.opened();
//@at loop 1 end
    proof { assert(protocol.opened() =~= old(protocol).opened().add(masked(pairs@, ts, __i1 + 1))); }
//@loop 2
    invariant __n3 == pairs@.len(), ts == beaver_triples@, ts.len() == pairs@.len(), multiplications@.len() == pairs@.len(), __c3@.len() == __i3, p() > 1,
        forall|i: int| 0 <= i < ts.len() ==> triple_ok(#[trigger] ts[i]), forall|i: int| 0 <= i < multiplications@.len() ==> opened_pair(#[trigger] multiplications@[i], pairs@[i], ts[i]),
        forall|i: int| 0 <= i < __c3@.len() ==> (#[trigger] __c3@[i]).sec() == md(pairs@[i].0.sec() * pairs@[i].1.sec())
//@at loop 2 end
    proof { let (x, y) = (pairs@[__i3 as int].0.sec(), pairs@[__i3 as int].1.sec()); assert(triple_ok(ts[__i3 as int])); assert(opened_pair(multiplications@[__i3 as int], pairs@[__i3 as int], ts[__i3 as int])); beaver(x, y, a.sec(), b.sec(), c.sec(), epsilon@, delta@);
    }
//@at let pairs_clone 1 after
    proof { same2(pairs@, pairs_clone@); }
//@at let beaver_triples 1 after
    let ghost ts = beaver_triples@;
//@endfn
//@fn BEAVER MultiplicationScheme for BeaverRerandomizationMultiplication::multiply | async chain vis=pub nogenerics nowhere
//@sub P => Pr
//@sub P:: => Pr::
//@sub S => Sh
//@sub T => F
//@spec
    ensures r.sec() == md(lhs.sec() * rhs.sec()), one_mult(*old(protocol), *final(protocol), lhs.sec(), rhs.sec())
//@at entry
    let ghost (x, y) = (lhs.sec(), rhs.sec());
//@at exit
    proof { let t = (a, b, c); assert(triple_ok(seq![t][0])); p_prime(); beaver(x, y, a.sec(), b.sec(), c.sec(), epsilon@, delta@);
        assert(protocol.triples() =~= old(protocol).triples().push(t)); assert(protocol.opened() =~= old(protocol).opened().insert(md(x - a.sec())).insert(md(y - b.sec()))); }
//@endfn

}
