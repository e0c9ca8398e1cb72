//@include lib/prelude.vrs
//@include lib/hash_trait.vrs
//@include lib/md.vrs
// ---------- SHA-1 as FIPS 180-4 defines it (4.1.1, 4.2.1, 6.1) ----------
pub struct ShaV { pub a: u32, pub b: u32, pub c: u32, pub d: u32, pub e: u32 }
/// message schedule
pub open spec fn sha_w(m: Seq<u8>, t: int) -> u32 decreases t {
    if t < 16 { be32(m, 4 * t) } else { rotl32(sha_w(m, t - 3) ^ sha_w(m, t - 8) ^ sha_w(m, t - 14) ^ sha_w(m, t - 16), 1) } }
#[verifier::opaque]
pub open spec fn sha_f(t: int, x: u32, y: u32, z: u32) -> u32 {
    if t < 20 { (x & y) ^ (!x & z) } else if t < 40 { x ^ y ^ z } else if t < 60 { (x & y) ^ (x & z) ^ (y & z) } else { x ^ y ^ z } }
// the normal forms vx emits (bits=u32) for every bit expression in the code
proof fn sha_f_forms(t: int, x: u32, y: u32, z: u32) ensures
    0 <= t < 20 ==> sha_f(t, x, y, z) == ((((((!x) & (!y)) & z) | (((!x) & y) & z)) | ((x & y) & (!z))) | ((x & y) & z)),
    20 <= t < 40 ==> sha_f(t, x, y, z) == ((((((!x) & (!y)) & z) | (((!x) & y) & (!z))) | ((x & (!y)) & (!z))) | ((x & y) & z)),
    40 <= t < 60 ==> sha_f(t, x, y, z) == ((((((!x) & y) & z) | ((x & (!y)) & z)) | ((x & y) & (!z))) | ((x & y) & z)),
    60 <= t < 80 ==> sha_f(t, x, y, z) == ((((((!x) & (!y)) & z) | (((!x) & y) & (!z))) | ((x & (!y)) & (!z))) | ((x & y) & z))
{ reveal(sha_f);
    assert(((x & y) ^ (!x & z)) == ((((((!x) & (!y)) & z) | (((!x) & y) & z)) | ((x & y) & (!z))) | ((x & y) & z))) by(bit_vector);
    assert((x ^ y ^ z) == ((((((!x) & (!y)) & z) | (((!x) & y) & (!z))) | ((x & (!y)) & (!z))) | ((x & y) & z))) by(bit_vector);
    assert(((x & y) ^ (x & z) ^ (y & z)) == ((((((!x) & y) & z) | ((x & (!y)) & z)) | ((x & y) & (!z))) | ((x & y) & z))) by(bit_vector); }
pub open spec fn sha_k(t: int) -> u32 { if t < 20 { 0x5a827999 } else if t < 40 { 0x6ed9eba1 } else if t < 60 { 0x8f1bbcdc } else { 0xca62c1d6 } }
pub open spec fn sha_step(s: ShaV, t: int, m: Seq<u8>) -> ShaV {
    ShaV { e: s.d, d: s.c, c: rotl32(s.b, 30), b: s.a, a: wadd32(wadd32(wadd32(wadd32(rotl32(s.a, 5) as int, sha_f(t, s.b, s.c, s.d) as int) as int, s.e as int) as int, sha_k(t) as int) as int, sha_w(m, t) as int) } }
pub open spec fn sha_rounds(s: ShaV, m: Seq<u8>, k: nat) -> ShaV decreases k { if k == 0 { s } else { sha_step(sha_rounds(s, m, (k - 1) as nat), k - 1, m) } }
pub open spec fn sha_compress(h: ShaV, m: Seq<u8>) -> ShaV { let r = sha_rounds(h, m, 80);
    ShaV { a: wadd32(h.a as int, r.a as int), b: wadd32(h.b as int, r.b as int), c: wadd32(h.c as int, r.c as int), d: wadd32(h.d as int, r.d as int), e: wadd32(h.e as int, r.e as int) } }
// ---------- the code ----------
//@item jester_hashes/src/sha1.rs BLOCK_LENGTH_BYTES
//@item jester_hashes/src/sha1.rs SHA1Hash derive=Copy,Clone needs=Copy,Clone
//@item jester_hashes/src/sha1.rs INITIAL
//@item jester_hashes/src/sha1.rs SHA1HashState pubfields=1
global layout SHA1Hash is size == 20;
impl SHA1Hash { pub open spec fn view(&self) -> ShaV { ShaV { a: self.a, b: self.b, c: self.c, d: self.d, e: self.e } } }
//@include lib/align_be.vrs
//@fn jester_hashes/src/sha1.rs round_function | bits=u32
//@spec
    requires old(hash).message_length + 512 <= u64::MAX
    ensures final(hash).hash@ == sha_compress(old(hash).hash@, block@), final(hash).message_length == old(hash).message_length + 512, final(hash).remaining_data == old(hash).remaining_data
//@loop 1
    invariant extended_block@.len() == 80, forall|j: int| 0 <= j < i ==> extended_block@[j] == sha_w(block@, j), i >= 16
//@loop 2
    invariant round_state@ == sha_rounds(hash.hash@, block@, i as nat), extended_block@.len() == 80, hash == old(hash), forall|j: int| 0 <= j < 80 ==> extended_block@[j] == sha_w(block@, j),
//@at loop 2 start
    proof { sha_f_forms(i as int, round_state.b, round_state.c, round_state.d); }
//@endfn
pub open spec fn SHAC() -> spec_fn(ShaV, Seq<u8>) -> ShaV { |h: ShaV, b: Seq<u8>| sha_compress(h, b) }
pub open spec fn SHAIV() -> ShaV { ShaV { a: 0x67452301, b: 0xEFCDAB89, c: 0x98BADCFE, d: 0x10325476, e: 0xc3d2e1f0 } }
pub open spec fn sha_bytes(h: ShaV) -> Seq<u8> { Seq::new(20, |j: int| (( if j < 4 { h.a } else if j < 8 { h.b } else if j < 12 { h.c } else if j < 16 { h.d } else { h.e } ) >> ((24 - 8 * (j % 4)) as u32)) as u8) }
impl HashValue for SHA1Hash {
    open spec fn bytes(&self) -> Seq<u8> { sha_bytes(self@) }
    #[verifier::external_body] // decided by Kani on the verbatim text: kani/sha1_raw
    fn raw(&self) -> (r: Vec<u8>) { unimplemented!() }
}
impl HashFunction for SHA1Hash {
    type Context = ();
    type HashState = SHA1HashState;
    type HashData = SHA1Hash;
    open spec fn valid(ctx: &()) -> bool { true }
    closed spec fn repr(ctx: &(), st: SHA1HashState, m: Seq<u8>) -> bool { m.len() < LIM() && md_repr(SHAC(), SHAIV(), st.hash@, st.message_length as int, st.remaining_data@, m) }
    open spec fn hash(ctx: &(), m: Seq<u8>) -> Seq<u8> { sha_bytes(md_hash(SHAC(), SHAIV(), false, m)) }
//@fn jester_hashes/src/sha1.rs HashFunction for SHA1Hash::init_hash
//@at entry
    proof { md_repr_empty(SHAC(), SHAIV()); }
//@endfn
//@fn jester_hashes/src/sha1.rs HashFunction for SHA1Hash::update_hash
//@at entry
    let ghost h0 = hash.hash@; let ghost b0 = hash.message_length; let ghost r0 = hash.remaining_data@; let ghost data = r0 + input@;
    let ghost k = (data.len() / 64) as int;
    proof { assert(exists|m: Seq<u8>| #[trigger] md_repr(SHAC(), SHAIV(), h0, b0 as int, r0, m) && m.len() + input@.len() < LIM());
        md_update_all(SHAC(), SHAIV(), h0, b0 as int, r0, input@); blocks_zero(SHAC(), h0, data); blocks_step(SHAC(), h0, data, 1); }
//@at call round_function 1 before
    proof { assert(first_block@ =~= data.subrange(0, 64)); }
//@at return 1
    proof { assert(hash.remaining_data@ =~= data.skip(0)); }
//@at loop 1 before
    let ghost c = (r0.len() + input_data_offset) / 64;
    proof { assert(c + message_blocks_count == k); }
//@loop 1
    invariant c + message_blocks_count == k, k == data.len() / 64, input@.len() <= usize::MAX, data == r0 + input@, input_data_offset <= input@.len(), r0.len() + input_data_offset == 64 * c, b0 + 512 * k + 512 <= u64::MAX,
        hash.hash@ == blocks(SHAC(), h0, data, (c + i) as int), hash.message_length == b0 + 512 * (c + i),
//@at loop 1 start
    proof { blocks_step(SHAC(), h0, data, c + i + 1); assert(data.subrange(64 * (c + i), 64 * (c + i + 1)) =~= input@.subrange(input_data_offset + i * 64, input_data_offset + (i + 1) * 64)); }
//@at exit
    proof { assert(hash.remaining_data@ =~= data.skip(64 * k)); }
//@endfn
//@fn jester_hashes/src/sha1.rs HashFunction for SHA1Hash::finish_hash
//@spec
        ensures r == final(hash).hash
//@at entry
    let ghost h0 = hash.hash@; let ghost b0 = hash.message_length; let ghost r0 = hash.remaining_data@; let ghost bits = (b0 + 8 * r0.len()) as u64;
    let ghost tail = md_tail(false, r0, bits);
    proof { assert(exists|m: Seq<u8>| #[trigger] md_repr(SHAC(), SHAIV(), h0, b0 as int, r0, m) && m.len() < LIM());
        md_finish_all(SHAC(), SHAIV(), false, h0, b0 as int, r0); }
//@loop 1
    invariant message_length_bits == bits, forall|j: int| 0 <= j < 64 ==> overflow_block@[j] == (if 64 - i <= j < 64 { len_bytes(false, bits)[j - 56] } else { 0 })
//@at call round_function 1 before
    proof { assert(last_block@ =~= tail.subrange(0, 64)); assert(overflow_block@ =~= tail.subrange(64, 128)); }
//@at loop 2 before
    let ghost lb = last_block@;
//@loop 2
    invariant message_length_bits == bits, forall|j: int| 0 <= j < 64 ==> last_block@[j] == (if 64 - i <= j < 64 { len_bytes(false, bits)[j - 56] } else { lb[j] })
//@at call round_function 3 before
    proof { assert(last_block@ =~= tail.subrange(0, 64)); }
//@endfn
//@fn jester_hashes/src/sha1.rs HashFunction for SHA1Hash::digest_message
//@at call finish_hash 1 before
    proof { assert(seq![] + input@ =~= input@); assert(Self::repr(ctx, hash_state, input@)); }
//@endfn
}
impl BlockHashFunction for SHA1Hash {
    open spec fn bsize(ctx: &()) -> nat { 64 }
    open spec fn osize(ctx: &()) -> nat { 20 }
    proof fn sizes(ctx: &(), m: Seq<u8>) { }
//@fn jester_hashes/src/sha1.rs BlockHashFunction for SHA1Hash::block_size
//@endfn
//@fn jester_hashes/src/sha1.rs BlockHashFunction for SHA1Hash::output_size
//@endfn
}
} fn main() {}
