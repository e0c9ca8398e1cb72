//@include lib/head_field.vrs
// ---------- M04: encodings are inverse to decodings, and mutual reversals ----------
fn encode_decode_le(x: &F) -> (r: Option<F>) requires can(*x) ensures r.is_some(), r.unwrap()@ == x@ { let b = x.as_bytes_le(); F::from_bytes_le(b.as_slice()) }
fn encode_decode_be(x: &F) -> (r: Option<F>) requires can(*x) ensures r.is_some(), r.unwrap()@ == x@ { let b = x.as_bytes_be(); F::from_bytes_be(b.as_slice()) }
fn encodings_reverse(x: &F) -> (r: (Vec<u8>, Vec<u8>)) requires can(*x) ensures r.0@ =~= rev(r.1@), r.1@ =~= rev(r.0@)
{ let a = x.as_bytes_le(); let b = x.as_bytes_be(); proof { enc_unique(a@, rev(b@)); } (a, b) }
pub proof fn le_val_zero(s: Seq<u8>) requires le_val(s) == 0 ensures forall|i: int| 0 <= i < s.len() ==> s[i] == 0 decreases s.len()
{ if s.len() > 0 { le_val_zero(s.drop_first()); assert forall|i: int| 0 <= i < s.len() implies s[i] == 0 by { if i > 0 { assert(s.drop_first()[i - 1] == s[i]); } } } }
pub proof fn enc_unique(a: Seq<u8>, b: Seq<u8>)
    requires le_val(a) == le_val(b), a.len() >= 1, b.len() >= 1, a.len() > 1 ==> a.last() != 0, b.len() > 1 ==> b.last() != 0
    ensures a =~= b
    decreases a.len()
{
    let (x, y) = (a.drop_first(), b.drop_first());
    let (u, v) = (le_val(x) as int, le_val(y) as int);
    assert(a[0] as int + 256 * u == b[0] as int + 256 * v);
    assert(a[0] == b[0] && u == v);
    if a.len() == 1 { le_val_zero(y); if b.len() > 1 { assert(y.last() == b.last()); } }
    else if b.len() == 1 { le_val_zero(x); assert(x.last() == a.last()); }
    else { assert(x.len() > 1 ==> x.last() == a.last()); assert(y.len() > 1 ==> y.last() == b.last());
        enc_unique(x, y); assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(x[i - 1] == y[i - 1]); } } }
}
// ---------- M05 ----------
fn power_of_zero_exponent(x: &F) -> (r: F) ensures r@ == 1 { proof { p_prime(); vstd::arithmetic::power::lemma_pow0(x@); small_mods(); } x.pow(&F::zero()) }
} fn main() {}
