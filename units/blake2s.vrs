//@# generated by tools/gen_blake.py
//@include lib/prelude.vrs
//@include lib/hash_trait.vrs
// ---------- trusted contracts for words of 32 bits ----------
pub open spec fn rotr(x: u32, n: int) -> u32 { (x >> (n as u32)) | (x << ((32 - n) as u32)) }

pub open spec fn le_word(b: Seq<u8>, o: int) -> u32 { (b[o] + b[o + 1] * 0x100 + b[o + 2] * 0x10000 + b[o + 3] * 0x1000000) as u32 }
#[verifier::external_body]
pub fn vp_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == le_word(b@, 0) { u32::from_le_bytes(b) }
#[verifier::external_body]
pub fn vp_write_u32_le(b: &mut Vec<u8>, x: u32) ensures final(b)@ == old(b)@ + Seq::new(4, |j: int| (x >> ((8 * j) as u32)) as u8) { b.extend_from_slice(&x.to_le_bytes()) }
#[verifier::external_body]
pub fn vp_write_u32_be(b: &mut Vec<u8>, x: u32) ensures final(b)@ == old(b)@ + Seq::new(4, |j: int| (x >> ((32 - 8 - 8 * j) as u32)) as u8) { b.extend_from_slice(&x.to_be_bytes()) }
pub open spec fn wadd(a: int, b: int) -> u32 { (if a + b >= 0x100000000 { a + b - 0x100000000 } else { a + b }) as u32 }
// ---------- BLAKE2s as RFC 7693 defines it ----------
pub open spec fn IV() -> Seq<u32> { seq![0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19] }
#[verifier::opaque]
pub open spec fn SIG() -> Seq<Seq<usize>> { seq![
    seq![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    seq![14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    seq![11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    seq![7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    seq![9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    seq![2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    seq![12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    seq![13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    seq![6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    seq![10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]] }
/// mixing function G, RFC 7693 3.1
#[verifier::opaque]
pub open spec fn G(v: Seq<u32>, a: int, b: int, c: int, d: int, x: u32, y: u32) -> Seq<u32> { Gr(v, a, b, c, d, x, y, 16, 12, 8, 7) }
pub open spec fn Gr(v: Seq<u32>, a: int, b: int, c: int, d: int, x: u32, y: u32, r1: int, r2: int, r3: int, r4: int) -> Seq<u32> {
    let v = v.update(a, wadd(wadd(v[a] as int, v[b] as int) as int, x as int));
    let v = v.update(d, rotr(v[d] ^ v[a], r1));
    let v = v.update(c, wadd(v[c] as int, v[d] as int));
    let v = v.update(b, rotr(v[b] ^ v[c], r2));
    let v = v.update(a, wadd(wadd(v[a] as int, v[b] as int) as int, y as int));
    let v = v.update(d, rotr(v[d] ^ v[a], r3));
    let v = v.update(c, wadd(v[c] as int, v[d] as int));
    v.update(b, rotr(v[b] ^ v[c], r4)) }
#[verifier::opaque]
pub open spec fn round(v: Seq<u32>, m: Seq<u32>, i: int) -> Seq<u32> {
    let s = SIG()[i % 10];
    let v = G(v, 0, 4, 8, 12, m[s[0] as int], m[s[1] as int]);
    let v = G(v, 1, 5, 9, 13, m[s[2] as int], m[s[3] as int]);
    let v = G(v, 2, 6, 10, 14, m[s[4] as int], m[s[5] as int]);
    let v = G(v, 3, 7, 11, 15, m[s[6] as int], m[s[7] as int]);
    let v = G(v, 0, 5, 10, 15, m[s[8] as int], m[s[9] as int]);
    let v = G(v, 1, 6, 11, 12, m[s[10] as int], m[s[11] as int]);
    let v = G(v, 2, 7, 8, 13, m[s[12] as int], m[s[13] as int]);
    G(v, 3, 4, 9, 14, m[s[14] as int], m[s[15] as int]) }
pub open spec fn rounds(v: Seq<u32>, m: Seq<u32>, k: int) -> Seq<u32> decreases k { if k <= 0 { v } else { round(rounds(v, m, k - 1), m, k - 1) } }
pub open spec fn words(b: Seq<u8>) -> Seq<u32> { Seq::new(16, |i: int| le_word(b, 4 * i)) }
pub open spec fn winit(h: Seq<u32>, t: u64, last: bool) -> Seq<u32> {
    let v = h + IV();
    let v = v.update(12, v[12] ^ (t as u32));
    let v = v.update(13, v[13] ^ ((t >> 32) as u32));
    if last { v.update(14, v[14] ^ u32::MAX) } else { v } }
/// compression function F, RFC 7693 3.2
#[verifier::opaque]
pub open spec fn F(h: Seq<u32>, b: Seq<u8>, t: u64, last: bool) -> Seq<u32> {
    let v = rounds(winit(h, t, last), words(b), 10);
    Seq::new(8, |i: int| h[i] ^ (v[i] ^ v[i + 8])) }
proof fn F_def(h: Seq<u32>, b: Seq<u8>, t: u64, last: bool)
    ensures F(h, b, t, last) == Seq::new(8, |i: int| h[i] ^ (rounds(winit(h, t, last), words(b), 10)[i] ^ rounds(winit(h, t, last), words(b), 10)[i + 8])) { reveal(F); }
/// chaining value after the first k blocks, none of which is the last
#[verifier::opaque]
pub open spec fn chain(h: Seq<u32>, d: Seq<u8>, k: int) -> Seq<u32> decreases k {
    if k <= 0 { h } else { F(chain(h, d, k - 1), d.subrange(64 * (k - 1), 64 * k), (64 * k) as u64, false) } }
/// the parameter word, however it is put together
proof fn vp_parameters(h: u32, k: u32, n: u32)
    requires k <= 64, n <= 64
    ensures h ^ (0x0101_0000 | (k << 8) | n) == h ^ (0x0101_0000 ^ (k << 8) ^ n), h ^ (0x0101_0000 + (k << 8) + n) as u32 == h ^ (0x0101_0000 ^ (k << 8) ^ n),
        ((h ^ 0x0101_0000) ^ (k << 8)) ^ n == h ^ (0x0101_0000 ^ (k << 8) ^ n), ((h ^ n) ^ (k << 8)) ^ 0x0101_0000 == h ^ (0x0101_0000 ^ (k << 8) ^ n), h ^ ((k << 8) ^ 0x0101_0000 ^ n) == h ^ (0x0101_0000 ^ (k << 8) ^ n), h ^ (n ^ (k << 8) ^ 0x0101_0000) == h ^ (0x0101_0000 ^ (k << 8) ^ n) {
    assert(h ^ (0x0101_0000 | (k << 8) | n) == h ^ (0x0101_0000 ^ (k << 8) ^ n)) by(bit_vector) requires k <= 64, n <= 64;
    assert(h ^ (0x0101_0000 + (k << 8) + n) as u32 == h ^ (0x0101_0000 ^ (k << 8) ^ n)) by(bit_vector) requires k <= 64, n <= 64;
    assert(((h ^ 0x0101_0000) ^ (k << 8)) ^ n == h ^ (0x0101_0000 ^ (k << 8) ^ n)) by(bit_vector);
    assert(((h ^ n) ^ (k << 8)) ^ 0x0101_0000 == h ^ (0x0101_0000 ^ (k << 8) ^ n)) by(bit_vector);
    assert(h ^ ((k << 8) ^ 0x0101_0000 ^ n) == h ^ (0x0101_0000 ^ (k << 8) ^ n)) by(bit_vector);
    assert(h ^ (n ^ (k << 8) ^ 0x0101_0000) == h ^ (0x0101_0000 ^ (k << 8) ^ n)) by(bit_vector);
}
pub open spec fn h0(kk: int, nn: int) -> Seq<u32> { IV().update(0, IV()[0] ^ (0x0101_0000 ^ ((kk as u32) << 8) ^ (nn as u32))) }
pub open spec fn zpad(s: Seq<u8>) -> Seq<u8> { Seq::new(64, |j: int| if j < s.len() { s[j] } else { 0u8 }) }
/// the byte string that is compressed: a padded key block, if there is a key, then the message
pub open spec fn data(key: Seq<u8>, m: Seq<u8>) -> Seq<u8> { if key.len() > 0 { zpad(key) + m } else { m } }
/// number of blocks before the last one
pub open spec fn nfull(l: int) -> int { if l <= 0 { 0 } else { (l - 1) / 64 } }
pub open spec fn b2_hash(key: Seq<u8>, nn: int, m: Seq<u8>) -> Seq<u8> {
    let d = data(key, m); let n = nfull(d.len() as int);
    le_bytes(F(chain(h0(key.len() as int, nn), d, n), zpad(d.skip(64 * n)), d.len() as u64, true)).take(nn) }
pub open spec fn le_bytes(h: Seq<u32>) -> Seq<u8> { Seq::new(32, |j: int| (h[j / 4] >> ((8 * (j % 4)) as u32)) as u8) }
#[verifier::opaque]
pub open spec fn b2_repr(key: Seq<u8>, nn: int, h: Seq<u32>, t: int, rem: Seq<u8>, m: Seq<u8>) -> bool {
    let d = data(key, m); let n = nfull(d.len() as int);
    &&& h == chain(h0(key.len() as int, nn), d, n) &&& t == 64 * n &&& rem == d.skip(64 * n) }
pub proof fn chain_zero(h: Seq<u32>, d: Seq<u8>) ensures chain(h, d, 0) == h { reveal(chain); }
pub proof fn chain_step(h: Seq<u32>, d: Seq<u8>, k: int) requires k > 0
    ensures chain(h, d, k) == F(chain(h, d, k - 1), d.subrange(64 * (k - 1), 64 * k), (64 * k) as u64, false) { reveal(chain); }
pub proof fn chain_prefix(h: Seq<u32>, a: Seq<u8>, b: Seq<u8>, k: int)
    requires 0 <= k, 64 * k <= a.len(), a.len() <= b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]
    ensures chain(h, a, k) == chain(h, b, k) decreases k
{ reveal(chain); if k > 0 { chain_prefix(h, a, b, k - 1); assert(a.subrange(64 * (k - 1), 64 * k) =~= b.subrange(64 * (k - 1), 64 * k)); } }
/// what the incremental calls may assume of any message the state stands for; `e` is the data seen so far followed by `input`
pub proof fn b2_facts(key: Seq<u8>, nn: int, h: Seq<u32>, t: int, rem: Seq<u8>, m: Seq<u8>, input: Seq<u8>)
    requires b2_repr(key, nn, h, t, rem, m)
    ensures ({ let d = data(key, m); let e = data(key, m + input); let n = nfull(d.len() as int);
        &&& e == d + input &&& n >= 0 &&& d.len() == 64 * n + rem.len() &&& t == 64 * n &&& rem == d.skip(64 * n) &&& rem.len() <= 64
        &&& d.len() <= m.len() + 64
        &&& (n > 0 ==> rem.len() > 0)
        &&& h == chain(h0(key.len() as int, nn), e, n)
        &&& h == chain(h0(key.len() as int, nn), d, n) })
{ reveal(b2_repr); let d = data(key, m); let e = data(key, m + input); let n = nfull(d.len() as int);
    assert(e =~= d + input); chain_prefix(h0(key.len() as int, nn), d, e, n); }
// ---------- the code ----------
//@item jester_hashes/src/blake/blake2s.rs INITIAL_2S
//@| ensures INITIAL_2S@ == IV()
//@| proof assert(r@ =~= IV());
//@item jester_hashes/src/blake/blake2s.rs BLAKE_2S_ROUND_COUNT
//@item jester_hashes/src/blake/blake2s.rs BLAKE_2S_BLOCK_SIZE
//@item jester_hashes/src/blake/mod.rs SIGMA
//@| ensures forall|i: int| #![trigger SIGMA@[i]] 0 <= i < 10 ==> SIGMA@[i]@ == SIG()[i]
//@| proof reveal(SIG); assert forall|i: int| 0 <= i < 10 implies #[trigger] r@[i]@ == SIG()[i] by { if i == 0 { assert(r@[0]@ =~= SIG()[0]); } if i == 1 { assert(r@[1]@ =~= SIG()[1]); } if i == 2 { assert(r@[2]@ =~= SIG()[2]); } if i == 3 { assert(r@[3]@ =~= SIG()[3]); } if i == 4 { assert(r@[4]@ =~= SIG()[4]); } if i == 5 { assert(r@[5]@ =~= SIG()[5]); } if i == 6 { assert(r@[6]@ =~= SIG()[6]); } if i == 7 { assert(r@[7]@ =~= SIG()[7]); } if i == 8 { assert(r@[8]@ =~= SIG()[8]); } if i == 9 { assert(r@[9]@ =~= SIG()[9]); } }
proof fn sig_range(i: int, j: int) requires 0 <= i < 10, 0 <= j < 16 ensures SIG()[i].len() == 16, SIG()[i][j] < 16 { reveal(SIG); }
proof fn sig_ranges(i: int) requires 0 <= i < 10 ensures SIG()[i].len() == 16, forall|j: int| 0 <= j < 16 ==> #[trigger] SIG()[i][j] < 16 { assert forall|j: int| 0 <= j < 16 implies SIG()[i].len() == 16 && #[trigger] SIG()[i][j] < 16 by { sig_range(i, j); } sig_range(i, 0); }
//@item jester_hashes/src/blake/blake2s.rs Blake2s
//@item jester_hashes/src/blake/blake2s.rs Blake2sHash pubfields=1
//@item jester_hashes/src/blake/blake2s.rs Blake2sContext pubfields=1
//@item jester_hashes/src/blake/blake2s.rs Blake2sState pubfields=1
//@fn jester_hashes/src/blake/mod.rs blake2_mix | droptype=N word=u32 wrapref
//@spec
    requires a < 16, b < 16, c < 16, d < 16, 0 < R1 < 32, 0 < R2 < 32, 0 < R3 < 32, 0 < R4 < 32
    ensures final(vector)@ == Gr(old(vector)@, a as int, b as int, c as int, d as int, x, y, R1 as int, R2 as int, R3 as int, R4 as int)
//@at entry
    let ghost v0 = vector@;
//@at exit
    proof { assert(vector@ =~= Gr(v0, a as int, b as int, c as int, d as int, x, y, R1 as int, R2 as int, R3 as int, R4 as int)); }
//@endfn
//@fn jester_hashes/src/blake/blake2s.rs blake2s_mix | monocall=blake2_mix:u32
//@spec
    requires a < 16, b < 16, c < 16, d < 16
    ensures final(vector)@ == G(old(vector)@, a as int, b as int, c as int, d as int, x, y)
//@at entry
    proof { reveal(G); }
//@endfn
//@fn jester_hashes/src/blake/blake2s.rs transform_block
//@spec
    ensures r@ == words(bytes@)
//@loop 1
    invariant forall|j: int| 0 <= j < i ==> block@[j] == words(bytes@)[j]
//@at exit
    proof { assert(__ret@ =~= words(bytes@)); }
//@endfn
//@fn jester_hashes/src/blake/blake2s.rs blake2s_compress
//@spec
    ensures final(state).hash@ == F(old(state).hash@, input@, old(state).message_length, last_block),
        final(state).message_length == old(state).message_length, final(state).remaining_data_buffer == old(state).remaining_data_buffer, final(state).remaining_data_length == old(state).remaining_data_length
//@at entry
    let ghost st0 = *state;
//@at loop 1 before
    let ghost v0 = winit(st0.hash@, st0.message_length, last_block);
    proof { let y = winit(st0.hash@, st0.message_length, false)[14]; assert(!y == y ^ u32::MAX) by(bit_vector); }
    proof { assert(vector@ =~= v0); }
//@loop 1
    invariant vector@ == rounds(v0, words(input@), i as int), input_block@ == words(input@), *state == st0
//@at loop 1 start
    let ghost vi = vector@; let ghost sg = SIG()[(i as int) % 10];
    proof { sig_ranges((i as int) % 10);  }
//@at loop 1 end
    proof { assert(permutation@ =~= sg); reveal(round); assert(vector@ == round(vi, words(input@), i as int)); }
//@at loop 2 before
    let ghost v = vector@;
    proof { F_def(st0.hash@, input@, st0.message_length, last_block); }
//@loop 2
    invariant vector@ == v, forall|j: int| 0 <= j < 8 ==> state.hash@[j] == (if j < i { st0.hash@[j] ^ (v[j] ^ v[j + 8]) } else { st0.hash@[j] }),
        state.message_length == st0.message_length, state.remaining_data_buffer == st0.remaining_data_buffer, state.remaining_data_length == st0.remaining_data_length
//@at exit
    proof { assert(state.hash@ =~= F(st0.hash@, input@, st0.message_length, last_block)); }
//@endfn
impl HashValue for Blake2sState {
    open spec fn bytes(&self) -> Seq<u8> { le_bytes(self.hash@) }
//@fn jester_hashes/src/blake/blake2s.rs HashValue for Blake2sState::raw
//@loop 1
    invariant b@.len() == 4 * i, forall|j: int| 0 <= j < 4 * i ==> b@[j] == le_bytes(self.hash@)[j]
//@at exit
    proof { assert(__ret@ =~= le_bytes(self.hash@)); }
//@endfn
}
impl HashValue for Blake2sHash {
    open spec fn bytes(&self) -> Seq<u8> { self.hash@ }
//@fn jester_hashes/src/blake/blake2s.rs HashValue for Blake2sHash::raw
//@at exit
    proof { assert(__ret@ =~= self.hash@); }
//@endfn
}
pub open spec fn strepr(ctx: &Blake2sContext, st: Blake2sState, m: Seq<u8>) -> bool {
    &&& m.len() < LIM()
    &&& st.remaining_data_length <= 64
    &&& b2_repr(ctx.key@, ctx.output_len as int, st.hash@, st.message_length as int, st.remaining_data_buffer@.take(st.remaining_data_length as int), m) }
impl HashFunction for Blake2s {
    type Context = Blake2sContext;
    type HashState = Blake2sState;
    type HashData = Blake2sHash;
    open spec fn valid(ctx: &Blake2sContext) -> bool { ctx.key@.len() <= 32 && 1 <= ctx.output_len <= 32 }
    open spec fn repr(ctx: &Blake2sContext, st: Blake2sState, m: Seq<u8>) -> bool { strepr(ctx, st, m) }
    open spec fn hash(ctx: &Blake2sContext, m: Seq<u8>) -> Seq<u8> { b2_hash(ctx.key@, ctx.output_len as int, m) }
//@fn jester_hashes/src/blake/blake2s.rs HashFunction for Blake2s::init_hash
//@at exit
    proof { vp_parameters(IV()[0], ctx.key@.len() as u32, ctx.output_len as u32); reveal(b2_repr); let d = data(ctx.key@, seq![]); chain_zero(h0(ctx.key@.len() as int, ctx.output_len as int), d);
        assert(__ret.hash@ =~= h0(ctx.key@.len() as int, ctx.output_len as int));
        assert(__ret.remaining_data_buffer@.take(__ret.remaining_data_length as int) =~= d.skip(0)); }
//@endfn
//@fn jester_hashes/src/blake/blake2s.rs HashFunction for Blake2s::update_hash
//@at entry
    let ghost st0 = *hash; let ghost kk = _ctx.key@; let ghost nn = _ctx.output_len as int; let ghost r0 = st0.remaining_data_buffer@.take(st0.remaining_data_length as int);
    let ghost H = h0(kk.len() as int, nn);
    let ghost m0 = choose|m: Seq<u8>| Self::repr(_ctx, st0, m) && m.len() + input@.len() < LIM();
    let ghost e = data(kk, m0 + input@); let ghost n = nfull(data(kk, m0).len() as int);
    proof { b2_facts(kk, nn, st0.hash@, st0.message_length as int, r0, m0, input@); }
//@at call blake2s_compress 1 before
    proof { assert(block@ =~= e.subrange(64 * n, 64 * (n + 1))); chain_step(H, e, n + 1); }
//@at return 1
    proof { assert forall|m: Seq<u8>| Self::repr(_ctx, st0, m) && m.len() + input@.len() < LIM() implies Self::repr(_ctx, *hash, m + input@) by {
        b2_facts(kk, nn, st0.hash@, st0.message_length as int, r0, m, input@); reveal(b2_repr); let d1 = data(kk, m + input@);
        assert(nfull(d1.len() as int) == nfull(data(kk, m).len() as int));
        assert(hash.remaining_data_buffer@.take(hash.remaining_data_length as int) =~= d1.skip(64 * n)); } }
//@at loop 1 before
    let ghost mut c = n + 1;
    proof { assert(e.len() == 64 * n + r0.len() + input@.len()); }
//@loop 1
    invariant n >= 0, c >= n + 1, input@.len() <= usize::MAX, e == data(kk, m0) + input@, data(kk, m0).len() == 64 * n + r0.len(), e.len() < LIM() + 64, r0.len() + input_data_offset == 64 * (c - n),
        0 <= input_data_offset < input@.len(),
        hash.hash@ == chain(H, e, c), hash.message_length == 64 * c,
    decreases input@.len() - input_data_offset
//@at loop 1 start
    proof { assert(e.subrange(64 * c, 64 * (c + 1)) =~= input@.subrange(input_data_offset as int, input_data_offset + 64)); chain_step(H, e, c + 1); c = c + 1; }
//@at exit
    proof { assert(c == nfull(e.len() as int));
      assert forall|m: Seq<u8>| Self::repr(_ctx, st0, m) && m.len() + input@.len() < LIM() implies Self::repr(_ctx, *hash, m + input@) by {
        b2_facts(kk, nn, st0.hash@, st0.message_length as int, r0, m, input@); reveal(b2_repr); let d1 = data(kk, m + input@); let d = data(kk, m);
        // every message the state stands for has the same number of blocks and the same tail; the chaining values follow from the state
        b2_same(kk, nn, st0.hash@, st0.message_length as int, r0, m, m0, input@, c);
        assert(hash.remaining_data_buffer@.take(hash.remaining_data_length as int) =~= d1.skip(64 * c)); } }
//@endfn
//@fn jester_hashes/src/blake/blake2s.rs HashFunction for Blake2s::finish_hash
//@at entry
    let ghost st0 = *hash; let ghost kk = ctx.key@; let ghost nn = ctx.output_len as int; let ghost r0 = st0.remaining_data_buffer@.take(st0.remaining_data_length as int);
    let ghost m0 = choose|m: Seq<u8>| Self::repr(ctx, st0, m);
    proof { b2_facts(kk, nn, st0.hash@, st0.message_length as int, r0, m0, seq![]); }
//@at call blake2s_compress 1 before
    proof { assert(last_block@ =~= zpad(r0)); }
//@at exit
    proof { assert forall|m: Seq<u8>| Self::repr(ctx, st0, m) implies __ret.bytes() == Self::hash(ctx, m) by {
        b2_facts(kk, nn, st0.hash@, st0.message_length as int, r0, m, seq![]);
        assert(__ret.bytes() =~= Self::hash(ctx, m)); } }
//@endfn
//@fn jester_hashes/src/blake/blake2s.rs HashFunction for Blake2s::digest_message
//@at call finish_hash 1 before
    proof { assert(seq![] + input@ =~= input@); assert(Self::repr(ctx, hash_state, input@)); }
//@endfn
}
/// two messages the same state stands for reach the same chaining value after the same further input
proof fn b2_same(key: Seq<u8>, nn: int, h: Seq<u32>, t: int, rem: Seq<u8>, a: Seq<u8>, b: Seq<u8>, input: Seq<u8>, c: int)
    requires b2_repr(key, nn, h, t, rem, a), b2_repr(key, nn, h, t, rem, b), nfull(data(key, a).len() as int) <= c, 64 * c <= data(key, a + input).len()
    ensures chain(h0(key.len() as int, nn), data(key, a + input), c) == chain(h0(key.len() as int, nn), data(key, b + input), c), data(key, a + input).len() == data(key, b + input).len()
    decreases c - nfull(data(key, a).len() as int)
{
    b2_facts(key, nn, h, t, rem, a, input); b2_facts(key, nn, h, t, rem, b, input);
    let n = nfull(data(key, a).len() as int); let ea = data(key, a + input); let eb = data(key, b + input); let H = h0(key.len() as int, nn);
    assert(ea.len() == eb.len());
    if c > n {
        b2_same(key, nn, h, t, rem, a, b, input, c - 1); chain_step(H, ea, c); chain_step(H, eb, c);
        assert(ea.skip(64 * n) =~= rem + input); assert(eb.skip(64 * n) =~= rem + input);
        assert(ea.subrange(64 * (c - 1), 64 * c) =~= (rem + input).subrange(64 * (c - 1 - n), 64 * (c - n)));
        assert(eb.subrange(64 * (c - 1), 64 * c) =~= (rem + input).subrange(64 * (c - 1 - n), 64 * (c - n)));
    }
}
impl BlockHashFunction for Blake2s {
    open spec fn bsize(ctx: &Blake2sContext) -> nat { 64 }
    open spec fn osize(ctx: &Blake2sContext) -> nat { ctx.output_len as nat }
    proof fn sizes(ctx: &Blake2sContext, m: Seq<u8>) { }
//@fn jester_hashes/src/blake/blake2s.rs BlockHashFunction for Blake2s::block_size
//@endfn
//@fn jester_hashes/src/blake/blake2s.rs BlockHashFunction for Blake2s::output_size
//@endfn
}
} fn main() {}
