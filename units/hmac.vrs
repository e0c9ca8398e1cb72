//@include lib/prelude.vrs
//@include lib/hash_trait.vrs
#[verifier::external_body]
pub fn vp_extend(v: &mut Vec<u8>, s: &[u8]) ensures final(v)@ == old(v)@ + s@ { v.extend_from_slice(s) }
pub open spec fn flat(v: Seq<Vec<u8>>) -> Seq<u8> decreases v.len() { if v.len() == 0 { seq![] } else { flat(v.drop_last()) + v.last()@ } }
#[verifier::external_body]
pub fn vp_concat(v: &Vec<Vec<u8>>) -> (r: Vec<u8>) ensures r@ == flat(v@) { v.concat() }
#[verifier::external_body] // checked exhaustively on its domain by the replay harness
pub fn vp_ceil_div(a: usize, b: usize) -> (r: usize) requires 0 < b <= 128, a <= 255 * 128 ensures r == (a + b - 1) / (b as int) { f64::ceil(a as f64 / b as f64) as usize }
// ---------- HMAC as RFC 2104 defines it ----------
pub open spec fn block_key<H: BlockHashFunction>(ctx: &H::Context, key: Seq<u8>) -> Seq<u8> {
    let k = if key.len() > H::bsize(ctx) { H::hash(ctx, key) } else { key };
    Seq::new(H::bsize(ctx), |i: int| if i < k.len() { k[i] } else { 0u8 }) }
pub open spec fn xor_all(s: Seq<u8>, x: u8) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] ^ x) }
pub open spec fn HMAC<H: BlockHashFunction>(ctx: &H::Context, key: Seq<u8>, m: Seq<u8>) -> Seq<u8> {
    let k = block_key::<H>(ctx, key);
    H::hash(ctx, xor_all(k, 0x5c) + H::hash(ctx, xor_all(k, 0x36) + m)) }
// ---------- HKDF as RFC 5869 defines it ----------
pub open spec fn hkdf_t<H: BlockHashFunction>(ctx: &H::Context, prk: Seq<u8>, info: Seq<u8>, i: int) -> Seq<u8> decreases i {
    if i <= 0 { seq![] } else { HMAC::<H>(ctx, prk, hkdf_t::<H>(ctx, prk, info, i - 1) + info + seq![i as u8]) } }
pub open spec fn hkdf_cat<H: BlockHashFunction>(ctx: &H::Context, prk: Seq<u8>, info: Seq<u8>, i: int) -> Seq<u8> decreases i {
    if i <= 0 { seq![] } else { hkdf_cat::<H>(ctx, prk, info, i - 1) + hkdf_t::<H>(ctx, prk, info, i) } }
pub open spec fn HKDF<H: BlockHashFunction>(ctx: &H::Context, salt: Seq<u8>, ikm: Seq<u8>, l: int, info: Seq<u8>) -> Seq<u8> {
    let n = (l + H::osize(ctx) - 1) / (H::osize(ctx) as int);
    hkdf_cat::<H>(ctx, HMAC::<H>(ctx, salt, ikm), info, n).take(l) }
/// the ways to write how many blocks cover a length
proof fn ceil_forms(a: int, b: int) requires a >= 0, b > 0
    ensures (a + b - 1) / b == a / b + (if a % b == 0 { 0int } else { 1 }), (a + b - 1) / b == (if a == 0 { 0 } else { (a - 1) / b + 1 }), (a / b) * b <= a, a / b >= 0, (a + b - 1) / b * b >= a
{
    let q = a / b; let r = a % b;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a, b);
    assert(b * q == q * b) by(nonlinear_arith);
    assert((q + 1) * b == q * b + b) by(nonlinear_arith);
    if r == 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a + b - 1, b, q, b - 1); assert(q * b >= a); }
    else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a + b - 1, b, q + 1, r - 1); }
    if a > 0 { assert((a - 1) / b + 1 == (a - 1 + b) / b) by { vstd::arithmetic::div_mod::lemma_div_plus_one(a - 1, b); } }
    else { vstd::arithmetic::div_mod::lemma_small_div_converse(b - 1, b); vstd::arithmetic::div_mod::lemma_basic_div(b - 1, b); }
}
// ---------- the code ----------
//@fn jester_hashes/src/hmac.rs pad
//@spec
    requires key@.len() <= length
    ensures r@ == key@ + Seq::new((length - key@.len()) as nat, |i: int| 0u8)
//@at exit
    proof { assert forall|i: int| 0 <= i < key@.len() implies __ret@[i] == key@[i] by { assert(__ret@.take(key@.len() as int)[i] == key@[i]); }
        assert(__ret@ =~= key@ + Seq::new((length - key@.len()) as nat, |i: int| 0u8)); }
//@endfn
//@fn jester_hashes/src/hmac.rs hmac | intovec derefelem
//@attr
#[verifier::loop_isolation(false)]
//@spec
    requires Hash::valid(ctx), key@.len() + 256 < LIM(), message@.len() + 256 < LIM()
    ensures r@ == HMAC::<Hash>(ctx, key@, message@), r@.len() == Hash::osize(ctx)
//@at entry
    proof { Hash::sizes(ctx, key@); }
    let ghost bk = block_key::<Hash>(ctx, key@);
//@at call digest_message 2 before
    proof { Hash::sizes(ctx, xor_all(bk, 0x36) + message@); assert(inner_message@ =~= xor_all(bk, 0x36) + message@) by { assert(padded_key@ =~= bk); } }
//@at call digest_message 3 before
    proof { assert(outer_message@ =~= xor_all(bk, 0x5c) + Hash::hash(ctx, xor_all(bk, 0x36) + message@)) by { assert(padded_key@ =~= bk); } Hash::sizes(ctx, outer_message@); }
//@endfn
//@fn jester_hashes/src/kdf.rs hkdf_derive_key | slicederef
//@spec
    requires Hash::valid(ctx), salt@.len() + 256 < LIM(), ikm@.len() + 256 < LIM(), info@.len() + 1024 < LIM(), output_length <= 255 * Hash::osize(ctx)
    ensures r@ == HKDF::<Hash>(ctx, salt@, ikm@, output_length as int, info@), r@.len() == output_length
//@at entry
    proof { Hash::sizes(ctx, salt@); assert(255 * Hash::osize(ctx) <= 255 * 128); }
    let ghost prk = HMAC::<Hash>(ctx, salt@, ikm@); let ghost os = Hash::osize(ctx) as int;
    proof { ceil_forms(output_length as int, os); }
//@at let parts 1 after
    proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(output_length + os - 1, os); assert((output_length + os - 1) < os * 256);
        vstd::arithmetic::div_mod::lemma_div_by_multiple_is_strongly_ordered(output_length + os - 1, os * 256, 256, os); assert((os * 256) / os == 256) by(nonlinear_arith) requires os > 0; assert(partials <= 255);
        assert(partials * os >= output_length) by(nonlinear_arith) requires os > 0, partials == (output_length + os - 1) / os; }
//@loop 1
    invariant Hash::valid(ctx), partials <= 255, parts@.len() == partials + 1, pseudo_random_key@ == prk, prk.len() <= 128, info@.len() + 1024 < LIM(), os == Hash::osize(ctx), os <= 128,
        forall|j: int| 0 <= j < i ==> #[trigger] parts@[j]@ == hkdf_t::<Hash>(ctx, prk, info@, j) && parts@[j]@.len() == (if j == 0 { 0 } else { os }),
//@at loop 1 start
    proof { assert((i & 0xff) as u8 == i as u8) by(bit_vector); }
//@at call vp_extend 3 after
    proof { assert(__vp_cat@ =~= hkdf_t::<Hash>(ctx, prk, info@, i - 1) + info@ + seq![i as u8]); }
//@at call hmac 2 before
    proof { assert(parts@[i - 1]@ == hkdf_t::<Hash>(ctx, prk, info@, i - 1)); }
//@at loop 1 after
    proof { cat_flat::<Hash>(ctx, prk, info@, partials as int, parts@, os); }
//@at exit
    proof { assert(__ret@ =~= HKDF::<Hash>(ctx, salt@, ikm@, output_length as int, info@)); }
//@endfn
proof fn cat_flat<H: BlockHashFunction>(ctx: &H::Context, prk: Seq<u8>, info: Seq<u8>, n: int, parts: Seq<Vec<u8>>, os: int)
    requires n >= 0, parts.len() == n + 1, forall|j: int| 0 <= j <= n ==> #[trigger] parts[j]@ == hkdf_t::<H>(ctx, prk, info, j) && parts[j]@.len() == (if j == 0 { 0 } else { os })
    ensures flat(parts) == hkdf_cat::<H>(ctx, prk, info, n), flat(parts).len() == n * os
    decreases n
{
    let p = parts.drop_last();
    if n == 0 { assert(p.len() == 0); assert(flat(p) =~= seq![]); assert(flat(parts) =~= seq![]); }
    else { assert forall|j: int| 0 <= j <= n - 1 implies #[trigger] p[j]@ == hkdf_t::<H>(ctx, prk, info, j) && p[j]@.len() == (if j == 0 { 0 } else { os }) by { assert(p[j] == parts[j]); }
        cat_flat::<H>(ctx, prk, info, n - 1, p, os); assert(parts.last() == parts[n]);
        assert((n - 1) * os + os == n * os) by(nonlinear_arith); }
}
/// two requests that differ only in length agree on their common prefix
proof fn hkdf_prefix<H: BlockHashFunction>(ctx: &H::Context, salt: Seq<u8>, ikm: Seq<u8>, a: int, b: int, info: Seq<u8>)
    requires H::valid(ctx), 0 <= a <= b
    ensures HKDF::<H>(ctx, salt, ikm, a, info) =~= HKDF::<H>(ctx, salt, ikm, b, info).take(a)
{
    H::sizes(ctx, seq![]); let os = H::osize(ctx) as int; let prk = HMAC::<H>(ctx, salt, ikm);
    let na = (a + os - 1) / os; let nb = (b + os - 1) / os;
    vstd::arithmetic::div_mod::lemma_div_is_ordered(a + os - 1, b + os - 1, os);
    assert(na * os >= a) by(nonlinear_arith) requires os > 0, na == (a + os - 1) / os;
    assert(nb * os >= b) by(nonlinear_arith) requires os > 0, nb == (b + os - 1) / os;
    assert(na >= 0) by(nonlinear_arith) requires os > 0, a >= 0, na == (a + os - 1) / os;
    cat_prefix::<H>(ctx, prk, info, na, nb);
    let ca = hkdf_cat::<H>(ctx, prk, info, na); let cb = hkdf_cat::<H>(ctx, prk, info, nb);
    assert(na * os <= nb * os) by(nonlinear_arith) requires na <= nb, os > 0;
    assert(ca.take(a) =~= cb.take(b).take(a)) by { assert forall|i: int| 0 <= i < a implies ca[i] == cb[i] by { assert(cb.take(na * os)[i] == cb[i]); } }
}
proof fn cat_prefix<H: BlockHashFunction>(ctx: &H::Context, prk: Seq<u8>, info: Seq<u8>, a: int, b: int)
    requires H::valid(ctx), 0 <= a <= b
    ensures hkdf_cat::<H>(ctx, prk, info, a).len() == a * H::osize(ctx), hkdf_cat::<H>(ctx, prk, info, b).len() == b * H::osize(ctx),
        hkdf_cat::<H>(ctx, prk, info, b).take(a * H::osize(ctx)) == hkdf_cat::<H>(ctx, prk, info, a)
    decreases b
{
    let os = H::osize(ctx) as int;
    if b == 0 { assert(hkdf_cat::<H>(ctx, prk, info, 0).take(0) =~= seq![]); }
    else {
        cat_prefix::<H>(ctx, prk, info, if a < b { a } else { b - 1 }, b - 1);
        let key = prk; let m = hkdf_t::<H>(ctx, prk, info, b - 1) + info + seq![b as u8]; let k = block_key::<H>(ctx, key);
        H::sizes(ctx, xor_all(k, 0x5c) + H::hash(ctx, xor_all(k, 0x36) + m));
        assert((b - 1) * os + os == b * os) by(nonlinear_arith);
        if a < b { assert(a * os <= (b - 1) * os) by(nonlinear_arith) requires a <= b - 1, os >= 0; }
        assert(hkdf_cat::<H>(ctx, prk, info, b).take(a * os) =~= hkdf_cat::<H>(ctx, prk, info, a));
    }
}
} fn main() {}
