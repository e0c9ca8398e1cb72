//@include lib/prelude.vrs
//@include lib/hash_trait.vrs
//@include lib/md.vrs
// ---------- MD5 as RFC 1321 defines it ----------
#[verifier::opaque]
pub open spec fn T() -> Seq<u32> { seq![
    0xd76aa478, 0xe8c7b756, 0x242070db, 0xc1bdceee, 0xf57c0faf, 0x4787c62a, 0xa8304613, 0xfd469501,
    0x698098d8, 0x8b44f7af, 0xffff5bb1, 0x895cd7be, 0x6b901122, 0xfd987193, 0xa679438e, 0x49b40821,
    0xf61e2562, 0xc040b340, 0x265e5a51, 0xe9b6c7aa, 0xd62f105d, 0x02441453, 0xd8a1e681, 0xe7d3fbc8,
    0x21e1cde6, 0xc33707d6, 0xf4d50d87, 0x455a14ed, 0xa9e3e905, 0xfcefa3f8, 0x676f02d9, 0x8d2a4c8a,
    0xfffa3942, 0x8771f681, 0x6d9d6122, 0xfde5380c, 0xa4beea44, 0x4bdecfa9, 0xf6bb4b60, 0xbebfbc70,
    0x289b7ec6, 0xeaa127fa, 0xd4ef3085, 0x04881d05, 0xd9d4d039, 0xe6db99e5, 0x1fa27cf8, 0xc4ac5665,
    0xf4292244, 0x432aff97, 0xab9423a7, 0xfc93a039, 0x655b59c3, 0x8f0ccc92, 0xffeff47d, 0x85845dd1,
    0x6fa87e4f, 0xfe2ce6e0, 0xa3014314, 0x4e0811a1, 0xf7537e82, 0xbd3af235, 0x2ad7d2bb, 0xeb86d391] }
pub open spec fn S(i: int) -> u32 {
  if i < 16 { if i % 4 == 0 { 7 } else if i % 4 == 1 { 12 } else if i % 4 == 2 { 17 } else { 22 } }
  else if i < 32 { if i % 4 == 0 { 5 } else if i % 4 == 1 { 9 } else if i % 4 == 2 { 14 } else { 20 } }
  else if i < 48 { if i % 4 == 0 { 4 } else if i % 4 == 1 { 11 } else if i % 4 == 2 { 16 } else { 23 } }
  else { if i % 4 == 0 { 6 } else if i % 4 == 1 { 10 } else if i % 4 == 2 { 15 } else { 21 } } }
pub struct Md5V { pub a: u32, pub b: u32, pub c: u32, pub d: u32 }
#[verifier::opaque]
pub open spec fn md5_f(i: int, b: u32, c: u32, d: u32) -> u32 {
  if i < 16 { (b & c) | (!b & d) } else if i < 32 { (b & d) | (c & !d) } else if i < 48 { b ^ c ^ d } else { c ^ (b | !d) } }
// the normal forms vx emits (bits=u32) for every bit expression in the code
proof fn md5_f_forms(i: int, b: u32, c: u32, d: u32) ensures
    0 <= i < 16 ==> md5_f(i, b, c, d) == ((((((!b) & (!c)) & d) | (((!b) & c) & d)) | ((b & c) & (!d))) | ((b & c) & d)),
    16 <= i < 32 ==> md5_f(i, b, c, d) == ((((((!b) & c) & (!d)) | ((b & (!c)) & d)) | ((b & c) & (!d))) | ((b & c) & d)),
    32 <= i < 48 ==> md5_f(i, b, c, d) == ((((((!b) & (!c)) & d) | (((!b) & c) & (!d))) | ((b & (!c)) & (!d))) | ((b & c) & d)),
    48 <= i < 64 ==> md5_f(i, b, c, d) == ((((((!b) & (!c)) & (!d)) | (((!b) & c) & d)) | ((b & (!c)) & (!d))) | ((b & (!c)) & d))
{ reveal(md5_f);
    assert(((b & c) | (!b & d)) == ((((((!b) & (!c)) & d) | (((!b) & c) & d)) | ((b & c) & (!d))) | ((b & c) & d))) by(bit_vector);
    assert(((b & d) | (c & !d)) == ((((((!b) & c) & (!d)) | ((b & (!c)) & d)) | ((b & c) & (!d))) | ((b & c) & d))) by(bit_vector);
    assert((b ^ c ^ d) == ((((((!b) & (!c)) & d) | (((!b) & c) & (!d))) | ((b & (!c)) & (!d))) | ((b & c) & d))) by(bit_vector);
    assert((c ^ (b | !d)) == ((((((!b) & (!c)) & (!d)) | (((!b) & c) & d)) | ((b & (!c)) & (!d))) | ((b & (!c)) & d))) by(bit_vector); }
pub open spec fn md5_g(i: int) -> int { if i < 16 { i } else if i < 32 { (5*i+1) % 16 } else if i < 48 { (3*i+5)%16 } else { (7*i) % 16 } }
pub open spec fn md5_step(s: Md5V, i: int, m: Seq<u8>) -> Md5V {
   Md5V { a: s.d, d: s.c, c: s.b, b: wadd32(s.b as int, rotl32(wadd32(wadd32(wadd32(s.a as int, md5_f(i, s.b, s.c, s.d) as int) as int, T()[i] as int) as int, le32(m, 4 * md5_g(i)) as int), S(i)) as int) } }
pub open spec fn md5_rounds(s: Md5V, m: Seq<u8>, k: nat) -> Md5V decreases k { if k == 0 { s } else { md5_step(md5_rounds(s, m, (k-1) as nat), k - 1, m) } }
pub open spec fn md5_compress(h: Md5V, m: Seq<u8>) -> Md5V { let r = md5_rounds(h, m, 64);
   Md5V { a: wadd32(h.a as int, r.a as int), b: wadd32(h.b as int, r.b as int), c: wadd32(h.c as int, r.c as int), d: wadd32(h.d as int, r.d as int) } }

// ---------- the code ----------
//@item jester_hashes/src/md5.rs BLOCK_LENGTH_BYTES
//@item jester_hashes/src/md5.rs BLOCK_LENGTH_DOUBLE_WORDS
//@item jester_hashes/src/md5.rs MD5Hash derive=Copy,Clone needs=Copy,Clone
//@item jester_hashes/src/md5.rs INITIAL
//@item jester_hashes/src/md5.rs MD5HashState
//@item jester_hashes/src/md5.rs ROUND_ROTATION_COUNT
//@| ensures forall|i: int| 0 <= i < 64 ==> ROUND_ROTATION_COUNT@[i] == S(i)
//@item jester_hashes/src/md5.rs MAGIC_SINUS_SCALARS
//@| ensures MAGIC_SINUS_SCALARS@ == T()
//@| proof reveal(T); assert(r@ =~= T());
global layout MD5Hash is size == 16;
impl MD5Hash { pub open spec fn view(&self) -> Md5V { Md5V { a: self.0, b: self.1, c: self.2, d: self.3 } } }
//@include lib/align_le.vrs
//@fn jester_hashes/src/md5.rs round_function | bits=u32
//@spec
    requires old(hash).message_length + 512 <= u64::MAX
    ensures final(hash).hash@ == md5_compress(old(hash).hash@, input@), final(hash).message_length == old(hash).message_length + 512, final(hash).remaining_data == old(hash).remaining_data
//@loop 1
    invariant round_state@ == md5_rounds(hash.hash@, input@, i as nat), input_block@.len() == 16, hash == old(hash),
        forall|j: int| 0 <= j < 16 ==> input_block@[j] == le32(input@, 4*j),
//@at loop 1 start
    proof { md5_f_forms(i as int, round_state.1, round_state.2, round_state.3); }
//@endfn
pub open spec fn MD5C() -> spec_fn(Md5V, Seq<u8>) -> Md5V { |h: Md5V, b: Seq<u8>| md5_compress(h, b) }
pub open spec fn MD5IV() -> Md5V { Md5V { a: 0x67452301, b: 0xEFCDAB89, c: 0x98BADCFE, d: 0x10325476 } }
pub open spec fn md5_bytes(h: Md5V) -> Seq<u8> { Seq::new(16, |j: int| (( if j < 4 { h.a } else if j < 8 { h.b } else if j < 12 { h.c } else { h.d } ) >> ((8 * (j % 4)) as u32)) as u8) }
impl HashValue for MD5Hash {
    open spec fn bytes(&self) -> Seq<u8> { md5_bytes(self@) }
    #[verifier::external_body] // decided by Kani on the verbatim text: kani/md5_raw
    fn raw(&self) -> (r: Vec<u8>) { unimplemented!() }
}
impl HashFunction for MD5Hash {
    type Context = ();
    type HashState = MD5HashState;
    type HashData = MD5Hash;
    open spec fn valid(ctx: &()) -> bool { true }
    closed spec fn repr(ctx: &(), st: MD5HashState, m: Seq<u8>) -> bool { m.len() < LIM() && md_repr(MD5C(), MD5IV(), st.hash@, st.message_length as int, st.remaining_data@, m) }
    open spec fn hash(ctx: &(), m: Seq<u8>) -> Seq<u8> { md5_bytes(md_hash(MD5C(), MD5IV(), true, m)) }
//@fn jester_hashes/src/md5.rs HashFunction for MD5Hash::init_hash
//@at entry
    proof { md_repr_empty(MD5C(), MD5IV()); }
//@endfn
//@fn jester_hashes/src/md5.rs HashFunction for MD5Hash::update_hash
//@attr
#[verifier::rlimit(60)]
//@at entry
    let ghost h0 = hash.hash@; let ghost b0 = hash.message_length; let ghost r0 = hash.remaining_data@; let ghost data = r0 + input@;
    let ghost k = (data.len() / 64) as int;
    proof { assert(exists|m: Seq<u8>| #[trigger] md_repr(MD5C(), MD5IV(), h0, b0 as int, r0, m) && m.len() + input@.len() < LIM());
        md_update_all(MD5C(), MD5IV(), h0, b0 as int, r0, input@); blocks_zero(MD5C(), h0, data); blocks_step(MD5C(), h0, data, 1); }
//@at call round_function 1 before
    proof { assert(first_block@ =~= data.subrange(0, 64)); }
//@at return 1
    proof { assert(hash.remaining_data@ =~= data.skip(0)); }
//@at loop 1 before
    let ghost c = (r0.len() + input_data_offset) / 64;
    proof { assert(c + message_blocks_count == k); }
//@loop 1
    invariant c + message_blocks_count == k, k == data.len() / 64, input@.len() <= usize::MAX, data == r0 + input@, input_data_offset <= input@.len(), r0.len() + input_data_offset == 64 * c, b0 + 512 * k + 512 <= u64::MAX,
        hash.hash@ == blocks(MD5C(), h0, data, (c + i) as int), hash.message_length == b0 + 512 * (c + i),
//@at loop 1 start
    proof { blocks_step(MD5C(), h0, data, c + i + 1); assert(data.subrange(64 * (c + i), 64 * (c + i + 1)) =~= input@.subrange(input_data_offset + i * 64, input_data_offset + (i + 1) * 64)); }
//@at exit
    proof { assert(hash.remaining_data@ =~= data.skip(64 * k)); }
//@endfn
//@fn jester_hashes/src/md5.rs HashFunction for MD5Hash::finish_hash
//@at entry
    let ghost h0 = hash.hash@; let ghost b0 = hash.message_length; let ghost r0 = hash.remaining_data@; let ghost bits = (b0 + 8 * r0.len()) as u64;
    let ghost tail = md_tail(true, r0, bits);
    proof { assert(exists|m: Seq<u8>| #[trigger] md_repr(MD5C(), MD5IV(), h0, b0 as int, r0, m) && m.len() < LIM());
        md_finish_all(MD5C(), MD5IV(), true, h0, b0 as int, r0); }
//@loop 1
    invariant message_length_bits == bits, forall|j: int| 0 <= j < 64 ==> overflow_block@[j] == (if 56 <= j < 56 + i { len_bytes(true, bits)[j - 56] } else { 0 })
//@at call round_function 1 before
    proof { assert(last_block@ =~= tail.subrange(0, 64)); assert(overflow_block@ =~= tail.subrange(64, 128)); }
//@at loop 2 before
    let ghost lb = last_block@;
//@loop 2
    invariant message_length_bits == bits, forall|j: int| 0 <= j < 64 ==> last_block@[j] == (if 56 <= j < 56 + i { len_bytes(true, bits)[j - 56] } else { lb[j] })
//@at call round_function 3 before
    proof { assert(last_block@ =~= tail.subrange(0, 64)); }
//@endfn
//@fn jester_hashes/src/md5.rs HashFunction for MD5Hash::digest_message
//@at call finish_hash 1 before
    proof { assert(seq![] + input@ =~= input@); assert(Self::repr(ctx, hash_state, input@)); }
//@endfn
}
impl BlockHashFunction for MD5Hash {
    open spec fn bsize(ctx: &()) -> nat { 64 }
    open spec fn osize(ctx: &()) -> nat { 16 }
    proof fn sizes(ctx: &(), m: Seq<u8>) { }
//@fn jester_hashes/src/md5.rs BlockHashFunction for MD5Hash::block_size
//@endfn
//@fn jester_hashes/src/md5.rs BlockHashFunction for MD5Hash::output_size
//@endfn
}
} fn main() {}
