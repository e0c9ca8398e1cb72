/// share k of the polynomial c
pub open spec fn share_of(c: Seq<int>, s: (usize, F), k: int) -> bool { s.0 == k + 1 && can(s.1) && s.1@ == md(pev(c, k + 1)) }
pub open spec fn poly_of(v: Seq<(usize, F)>, secret: int) -> Seq<int> { Seq::new(v.len() + 1, |k: int| if k == 0 { secret } else { v[k - 1].1@ }) }
pub open spec fn xs_of(s: Seq<(usize, F)>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].0 as int) }
pub open spec fn ys_of(s: Seq<(usize, F)>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].1@) }
