//@include lib/prelude.vrs
//@include lib/hash_trait.vrs
/// concatenation of the pieces
pub open spec fn cat(v: Seq<Seq<u8>>, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { cat(v, n - 1) + v[n - 1] } }
/// Written against the trait contracts only, which every hash function in the library is checked against:
/// hashing the pieces one after the other gives the digest of the concatenation, which is what one call on the concatenation gives.
fn pieces_equal_whole<H: HashFunction>(ctx: &H::Context, pieces: &Vec<Vec<u8>>, whole: &[u8]) -> (r: (H::HashData, H::HashData))
    requires H::valid(ctx), whole@ == cat(pieces@.map(|i: int, p: Vec<u8>| p@), pieces@.len() as int), whole@.len() < LIM()
    ensures r.0.bytes() == r.1.bytes(), r.0.bytes() == H::hash(ctx, whole@)
{
    let ghost ps = pieces@.map(|i: int, p: Vec<u8>| p@);
    let mut st = H::init_hash(ctx);
    for i in 0..pieces.len()
        invariant H::valid(ctx), H::repr(ctx, st, cat(ps, i as int)), ps == pieces@.map(|i: int, p: Vec<u8>| p@), cat(ps, pieces@.len() as int).len() < LIM()
    {
        proof { cat_mono(ps, i + 1, pieces@.len() as int); assert(H::repr(ctx, st, cat(ps, i as int)) && cat(ps, i as int).len() + pieces@[i as int]@.len() < LIM()); }
        H::update_hash(&mut st, ctx, pieces[i].as_slice());
    }
    let a = H::finish_hash(&mut st, ctx);
    let b = H::digest_message(ctx, whole);
    (a, b)
}
proof fn cat_mono(v: Seq<Seq<u8>>, a: int, b: int) requires 0 <= a <= b ensures cat(v, a).len() <= cat(v, b).len() decreases b { if a < b { cat_mono(v, a, b - 1); } }
} fn main() {}
