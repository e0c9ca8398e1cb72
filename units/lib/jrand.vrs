//@alias SUMRNG = jester_sharing/src/random_number_generation/sum_random_number_generation.rs
pub open spec fn zip(a: Seq<Sh>, b: Seq<Sh>) -> Seq<(Sh, Sh)> { Seq::new(a.len(), |i: int| (a[i], b[i])) }
pub open spec fn nsum(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { nsum(s.drop_last()) + s.last() } }
/// between the logs g and g2 every party contributed once, and h is shared as the sum of just those contributions
pub open spec fn block(g: Seq<int>, g2: Seq<int>, k: nat, h: Sh) -> bool { g2.len() == g.len() + k && g2.take(g.len() as int) == g && h.sec() == md(nsum(g2.skip(g.len() as int))) }
pub proof fn ssum_nsum(s: Seq<Sh>, n: Seq<int>) requires s.len() == n.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] n[i] == s[i].sec() ensures ssum(s) == nsum(n) decreases s.len()
{ if s.len() > 0 { assert(n[s.len() - 1] == s.last().sec()); assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] n.drop_last()[i] == s.drop_last()[i].sec() by { assert(n[i] == s[i].sec()); } ssum_nsum(s.drop_last(), n.drop_last()); } }
/// this party drew one number uniformly below the prime, and contributed it
pub open spec fn own_draw(l: Seq<(nat, nat)>, l2: Seq<(nat, nat)>, g: Seq<int>, g2: Seq<int>) -> bool { l2.len() == l.len() + 1 && l2.drop_last() == l && l2.last().0 == p() && g2.skip(g.len() as int).contains(l2.last().1 as int) }
impl Pr {
//@fn SUMRNG RandomNumberGenerationScheme for SumRandomNumberGeneration::generate_random_number_sharing | async chain vis=pub nogenerics nowhere
//@sub P => Pr
//@sub P:: => Pr::
//@sub S => Sh
//@sub T => F
//@sub T:: => F::
//@sub R => VpRng
//@spec
    ensures block(old(protocol).given(), final(protocol).given(), old(protocol).parties(), r), own_draw(old(rng).log(), final(rng).log(), old(protocol).given(), final(protocol).given()), only_gave(*old(protocol), *final(protocol))
//@at let rand_partial 1 after
    let ghost d = rand_partial.0@;
    let ghost l2 = rng.log();
//@at let all_shares_future 1 after
    proof {
        let (g, g2) = (old(protocol).given(), protocol.given()); let cs = Seq::new(all_shares_future@.len(), |i: int| all_shares_future@[i].sec());
        assert(g2.take(g.len() as int) =~= g); assert(g2.skip(g.len() as int) =~= cs); ssum_nsum(all_shares_future@, cs);
        let w = choose|i: int| 0 <= i < all_shares_future@.len() && #[trigger] all_shares_future@[i].sec() == d as int; assert(cs[w] == d as int);
        assert(l2.drop_last() =~= old(rng).log());
    }
//@endfn
}
