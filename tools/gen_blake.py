#!/usr/bin/env python3
"""Writes units/blake2b.vrs and units/blake2s.vrs from one text (the two standards differ only in word size and constants)."""
import os
T = r'''//@# generated by tools/gen_blake.py
//@include lib/prelude.vrs
//@include lib/hash_trait.vrs
// ---------- trusted contracts for words of @W@ bits ----------
pub open spec fn rotr(x: @u@, n: int) -> @u@ { (x >> (n as @u@)) | (x << ((@W@ - n) as @u@)) }
@ROT@
pub open spec fn le_word(b: Seq<u8>, o: int) -> @u@ { (@LESUM@) as @u@ }
#[verifier::external_body]
pub fn vp_@u@_from_le_bytes(b: [u8; @WB@]) -> (r: @u@) ensures r == le_word(b@, 0) { @u@::from_le_bytes(b) }
#[verifier::external_body]
pub fn vp_write_@u@_le(b: &mut Vec<u8>, x: @u@) ensures final(b)@ == old(b)@ + Seq::new(@WB@, |j: int| (x >> ((8 * j) as @u@)) as u8) { b.extend_from_slice(&x.to_le_bytes()) }
#[verifier::external_body]
pub fn vp_write_@u@_be(b: &mut Vec<u8>, x: @u@) ensures final(b)@ == old(b)@ + Seq::new(@WB@, |j: int| (x >> ((@W@ - 8 - 8 * j) as @u@)) as u8) { b.extend_from_slice(&x.to_be_bytes()) }
pub open spec fn wadd(a: int, b: int) -> @u@ { (if a + b >= @MOD@ { a + b - @MOD@ } else { a + b }) as @u@ }
// ---------- BLAKE2@x@ as RFC 7693 defines it ----------
pub open spec fn IV() -> Seq<@u@> { seq![@IV@] }
#[verifier::opaque]
pub open spec fn SIG() -> Seq<Seq<usize>> { seq![
    seq![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    seq![14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    seq![11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    seq![7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    seq![9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    seq![2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    seq![12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    seq![13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    seq![6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    seq![10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]] }
/// mixing function G, RFC 7693 3.1
#[verifier::opaque]
pub open spec fn G(v: Seq<@u@>, a: int, b: int, c: int, d: int, x: @u@, y: @u@) -> Seq<@u@> { Gr(v, a, b, c, d, x, y, @R1@, @R2@, @R3@, @R4@) }
pub open spec fn Gr(v: Seq<@u@>, a: int, b: int, c: int, d: int, x: @u@, y: @u@, r1: int, r2: int, r3: int, r4: int) -> Seq<@u@> {
    let v = v.update(a, wadd(wadd(v[a] as int, v[b] as int) as int, x as int));
    let v = v.update(d, rotr(v[d] ^ v[a], r1));
    let v = v.update(c, wadd(v[c] as int, v[d] as int));
    let v = v.update(b, rotr(v[b] ^ v[c], r2));
    let v = v.update(a, wadd(wadd(v[a] as int, v[b] as int) as int, y as int));
    let v = v.update(d, rotr(v[d] ^ v[a], r3));
    let v = v.update(c, wadd(v[c] as int, v[d] as int));
    v.update(b, rotr(v[b] ^ v[c], r4)) }
#[verifier::opaque]
pub open spec fn round(v: Seq<@u@>, m: Seq<@u@>, i: int) -> Seq<@u@> {
    let s = SIG()[i % 10];
    let v = G(v, 0, 4, 8, 12, m[s[0] as int], m[s[1] as int]);
    let v = G(v, 1, 5, 9, 13, m[s[2] as int], m[s[3] as int]);
    let v = G(v, 2, 6, 10, 14, m[s[4] as int], m[s[5] as int]);
    let v = G(v, 3, 7, 11, 15, m[s[6] as int], m[s[7] as int]);
    let v = G(v, 0, 5, 10, 15, m[s[8] as int], m[s[9] as int]);
    let v = G(v, 1, 6, 11, 12, m[s[10] as int], m[s[11] as int]);
    let v = G(v, 2, 7, 8, 13, m[s[12] as int], m[s[13] as int]);
    G(v, 3, 4, 9, 14, m[s[14] as int], m[s[15] as int]) }
pub open spec fn rounds(v: Seq<@u@>, m: Seq<@u@>, k: int) -> Seq<@u@> decreases k { if k <= 0 { v } else { round(rounds(v, m, k - 1), m, k - 1) } }
pub open spec fn words(b: Seq<u8>) -> Seq<@u@> { Seq::new(16, |i: int| le_word(b, @WB@ * i)) }
pub open spec fn winit(h: Seq<@u@>, t: @ct@, last: bool) -> Seq<@u@> {
    let v = h + IV();
    let v = v.update(12, v[12] ^ (t as @u@));
    let v = v.update(13, v[13] ^ ((t >> @W@) as @u@));
    if last { v.update(14, v[14] ^ @u@::MAX) } else { v } }
/// compression function F, RFC 7693 3.2
#[verifier::opaque]
pub open spec fn F(h: Seq<@u@>, b: Seq<u8>, t: @ct@, last: bool) -> Seq<@u@> {
    let v = rounds(winit(h, t, last), words(b), @RN@);
    Seq::new(8, |i: int| h[i] ^ (v[i] ^ v[i + 8])) }
proof fn F_def(h: Seq<@u@>, b: Seq<u8>, t: @ct@, last: bool)
    ensures F(h, b, t, last) == Seq::new(8, |i: int| h[i] ^ (rounds(winit(h, t, last), words(b), @RN@)[i] ^ rounds(winit(h, t, last), words(b), @RN@)[i + 8])) { reveal(F); }
/// chaining value after the first k blocks, none of which is the last
#[verifier::opaque]
pub open spec fn chain(h: Seq<@u@>, d: Seq<u8>, k: int) -> Seq<@u@> decreases k {
    if k <= 0 { h } else { F(chain(h, d, k - 1), d.subrange(@B@ * (k - 1), @B@ * k), (@B@ * k) as @ct@, false) } }
pub open spec fn h0(kk: int, nn: int) -> Seq<@u@> { IV().update(0, IV()[0] ^ (0x0101_0000 ^ ((kk as @u@) << 8) ^ (nn as @u@))) }
pub open spec fn zpad(s: Seq<u8>) -> Seq<u8> { Seq::new(@B@, |j: int| if j < s.len() { s[j] } else { 0u8 }) }
/// the byte string that is compressed: a padded key block, if there is a key, then the message
pub open spec fn data(key: Seq<u8>, m: Seq<u8>) -> Seq<u8> { if key.len() > 0 { zpad(key) + m } else { m } }
/// number of blocks before the last one
pub open spec fn nfull(l: int) -> int { if l <= 0 { 0 } else { (l - 1) / @B@ } }
pub open spec fn b2_hash(key: Seq<u8>, nn: int, m: Seq<u8>) -> Seq<u8> {
    let d = data(key, m); let n = nfull(d.len() as int);
    le_bytes(F(chain(h0(key.len() as int, nn), d, n), zpad(d.skip(@B@ * n)), d.len() as @ct@, true)).take(nn) }
pub open spec fn le_bytes(h: Seq<@u@>) -> Seq<u8> { Seq::new(@OUT@, |j: int| (h[j / @WB@] >> ((8 * (j % @WB@)) as @u@)) as u8) }
#[verifier::opaque]
pub open spec fn b2_repr(key: Seq<u8>, nn: int, h: Seq<@u@>, t: int, rem: Seq<u8>, m: Seq<u8>) -> bool {
    let d = data(key, m); let n = nfull(d.len() as int);
    &&& h == chain(h0(key.len() as int, nn), d, n) &&& t == @B@ * n &&& rem == d.skip(@B@ * n) }
pub proof fn chain_zero(h: Seq<@u@>, d: Seq<u8>) ensures chain(h, d, 0) == h { reveal(chain); }
pub proof fn chain_step(h: Seq<@u@>, d: Seq<u8>, k: int) requires k > 0
    ensures chain(h, d, k) == F(chain(h, d, k - 1), d.subrange(@B@ * (k - 1), @B@ * k), (@B@ * k) as @ct@, false) { reveal(chain); }
pub proof fn chain_prefix(h: Seq<@u@>, a: Seq<u8>, b: Seq<u8>, k: int)
    requires 0 <= k, @B@ * k <= a.len(), a.len() <= b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]
    ensures chain(h, a, k) == chain(h, b, k) decreases k
{ reveal(chain); if k > 0 { chain_prefix(h, a, b, k - 1); assert(a.subrange(@B@ * (k - 1), @B@ * k) =~= b.subrange(@B@ * (k - 1), @B@ * k)); } }
/// what the incremental calls may assume of any message the state stands for; `e` is the data seen so far followed by `input`
pub proof fn b2_facts(key: Seq<u8>, nn: int, h: Seq<@u@>, t: int, rem: Seq<u8>, m: Seq<u8>, input: Seq<u8>)
    requires b2_repr(key, nn, h, t, rem, m)
    ensures ({ let d = data(key, m); let e = data(key, m + input); let n = nfull(d.len() as int);
        &&& e == d + input &&& n >= 0 &&& d.len() == @B@ * n + rem.len() &&& t == @B@ * n &&& rem == d.skip(@B@ * n) &&& rem.len() <= @B@
        &&& d.len() <= m.len() + @B@
        &&& (n > 0 ==> rem.len() > 0)
        &&& h == chain(h0(key.len() as int, nn), e, n)
        &&& h == chain(h0(key.len() as int, nn), d, n) })
{ reveal(b2_repr); let d = data(key, m); let e = data(key, m + input); let n = nfull(d.len() as int);
    assert(e =~= d + input); chain_prefix(h0(key.len() as int, nn), d, e, n); }
// ---------- the code ----------
//@item jester_hashes/src/blake/@f@ INITIAL_2@X@
//@| ensures INITIAL_2@X@@ == IV()
//@| proof assert(r@ =~= IV());
//@item jester_hashes/src/blake/@f@ BLAKE_2@X@_ROUND_COUNT
//@item jester_hashes/src/blake/@f@ BLAKE_2@X@_BLOCK_SIZE
//@item jester_hashes/src/blake/mod.rs SIGMA
//@| ensures forall|i: int| #![trigger SIGMA@[i]] 0 <= i < 10 ==> SIGMA@[i]@ == SIG()[i]
//@| proof reveal(SIG); assert forall|i: int| 0 <= i < 10 implies #[trigger] r@[i]@ == SIG()[i] by { @SIGPROOF@ }
proof fn sig_range(i: int, j: int) requires 0 <= i < 10, 0 <= j < 16 ensures SIG()[i].len() == 16, SIG()[i][j] < 16 { reveal(SIG); }
proof fn sig_ranges(i: int) requires 0 <= i < 10 ensures SIG()[i].len() == 16, forall|j: int| 0 <= j < 16 ==> #[trigger] SIG()[i][j] < 16 { assert forall|j: int| 0 <= j < 16 implies SIG()[i].len() == 16 && #[trigger] SIG()[i][j] < 16 by { sig_range(i, j); } sig_range(i, 0); }
//@item jester_hashes/src/blake/@f@ Blake2@x@
//@item jester_hashes/src/blake/@f@ Blake2@x@Hash pubfields=1
//@item jester_hashes/src/blake/@f@ Blake2@x@Context pubfields=1
//@item jester_hashes/src/blake/@f@ Blake2@x@State pubfields=1
//@fn jester_hashes/src/blake/mod.rs blake2_mix | droptype=N word=@u@ wrapref
//@spec
    requires a < 16, b < 16, c < 16, d < 16, 0 < R1 < @W@, 0 < R2 < @W@, 0 < R3 < @W@, 0 < R4 < @W@
    ensures final(vector)@ == Gr(old(vector)@, a as int, b as int, c as int, d as int, x, y, R1 as int, R2 as int, R3 as int, R4 as int)
//@at entry
    let ghost v0 = vector@;
//@at exit
    proof { assert(vector@ =~= Gr(v0, a as int, b as int, c as int, d as int, x, y, R1 as int, R2 as int, R3 as int, R4 as int)); }
//@endfn
//@fn jester_hashes/src/blake/@f@ blake2@x@_mix | monocall=blake2_mix:@u@
//@spec
    requires a < 16, b < 16, c < 16, d < 16
    ensures final(vector)@ == G(old(vector)@, a as int, b as int, c as int, d as int, x, y)
//@at entry
    proof { reveal(G); }
//@endfn
//@fn jester_hashes/src/blake/@f@ transform_block
//@spec
    ensures r@ == words(bytes@)
//@loop 1
    invariant forall|j: int| 0 <= j < i ==> block@[j] == words(bytes@)[j]
//@at exit
    proof { assert(__ret@ =~= words(bytes@)); }
//@endfn
//@fn jester_hashes/src/blake/@f@ blake2@x@_compress
//@spec
    ensures final(state).hash@ == F(old(state).hash@, input@, old(state).message_length, last_block),
        final(state).message_length == old(state).message_length, final(state).remaining_data_buffer == old(state).remaining_data_buffer, final(state).remaining_data_length == old(state).remaining_data_length
//@at entry
    let ghost st0 = *state;
//@at loop 1 before
    let ghost v0 = winit(st0.hash@, st0.message_length, last_block);
    proof { assert(vector@ =~= v0); }
//@loop 1
    invariant vector@ == rounds(v0, words(input@), i as int), input_block@ == words(input@), *state == st0
//@at loop 1 start
    let ghost vi = vector@; let ghost sg = SIG()[(i as int) % 10];
    proof { sig_ranges((i as int) % 10); @SGI@ }
//@at loop 1 end
    proof { assert(permutation@ =~= sg); reveal(round); assert(vector@ == round(vi, words(input@), i as int)); }
//@at loop 2 before
    let ghost v = vector@;
    proof { F_def(st0.hash@, input@, st0.message_length, last_block); }
//@loop 2
    invariant vector@ == v, forall|j: int| 0 <= j < 8 ==> state.hash@[j] == (if j < i { st0.hash@[j] ^ (v[j] ^ v[j + 8]) } else { st0.hash@[j] }),
        state.message_length == st0.message_length, state.remaining_data_buffer == st0.remaining_data_buffer, state.remaining_data_length == st0.remaining_data_length
//@at exit
    proof { assert(state.hash@ =~= F(st0.hash@, input@, st0.message_length, last_block)); }
//@endfn
impl HashValue for Blake2@x@State {
    open spec fn bytes(&self) -> Seq<u8> { le_bytes(self.hash@) }
//@fn jester_hashes/src/blake/@f@ HashValue for Blake2@x@State::raw
//@loop 1
    invariant b@.len() == @WB@ * i, forall|j: int| 0 <= j < @WB@ * i ==> b@[j] == le_bytes(self.hash@)[j]
//@at exit
    proof { assert(__ret@ =~= le_bytes(self.hash@)); }
//@endfn
}
impl HashValue for Blake2@x@Hash {
    open spec fn bytes(&self) -> Seq<u8> { self.hash@ }
//@fn jester_hashes/src/blake/@f@ HashValue for Blake2@x@Hash::raw
//@at exit
    proof { assert(__ret@ =~= self.hash@); }
//@endfn
}
pub open spec fn strepr(ctx: &Blake2@x@Context, st: Blake2@x@State, m: Seq<u8>) -> bool {
    &&& m.len() < LIM()
    &&& st.remaining_data_length <= @B@
    &&& b2_repr(ctx.key@, ctx.output_len as int, st.hash@, st.message_length as int, st.remaining_data_buffer@.take(st.remaining_data_length as int), m) }
impl HashFunction for Blake2@x@ {
    type Context = Blake2@x@Context;
    type HashState = Blake2@x@State;
    type HashData = Blake2@x@Hash;
    open spec fn valid(ctx: &Blake2@x@Context) -> bool { ctx.key@.len() <= @OUT@ && 1 <= ctx.output_len <= @OUT@ }
    open spec fn repr(ctx: &Blake2@x@Context, st: Blake2@x@State, m: Seq<u8>) -> bool { strepr(ctx, st, m) }
    open spec fn hash(ctx: &Blake2@x@Context, m: Seq<u8>) -> Seq<u8> { b2_hash(ctx.key@, ctx.output_len as int, m) }
//@fn jester_hashes/src/blake/@f@ HashFunction for Blake2@x@::init_hash
//@at exit
    proof { reveal(b2_repr); let d = data(ctx.key@, seq![]); chain_zero(h0(ctx.key@.len() as int, ctx.output_len as int), d);
        assert(__ret.hash@ =~= h0(ctx.key@.len() as int, ctx.output_len as int));
        assert(__ret.remaining_data_buffer@.take(__ret.remaining_data_length as int) =~= d.skip(0)); }
//@endfn
//@fn jester_hashes/src/blake/@f@ HashFunction for Blake2@x@::update_hash
//@at entry
    let ghost st0 = *hash; let ghost kk = _ctx.key@; let ghost nn = _ctx.output_len as int; let ghost r0 = st0.remaining_data_buffer@.take(st0.remaining_data_length as int);
    let ghost H = h0(kk.len() as int, nn);
    let ghost m0 = choose|m: Seq<u8>| Self::repr(_ctx, st0, m) && m.len() + input@.len() < LIM();
    let ghost e = data(kk, m0 + input@); let ghost n = nfull(data(kk, m0).len() as int);
    proof { b2_facts(kk, nn, st0.hash@, st0.message_length as int, r0, m0, input@); }
//@at call blake2@x@_compress 1 before
    proof { assert(block@ =~= e.subrange(@B@ * n, @B@ * (n + 1))); chain_step(H, e, n + 1); }
//@at return 1
    proof { assert forall|m: Seq<u8>| Self::repr(_ctx, st0, m) && m.len() + input@.len() < LIM() implies Self::repr(_ctx, *hash, m + input@) by {
        b2_facts(kk, nn, st0.hash@, st0.message_length as int, r0, m, input@); reveal(b2_repr); let d1 = data(kk, m + input@);
        assert(nfull(d1.len() as int) == nfull(data(kk, m).len() as int));
        assert(hash.remaining_data_buffer@.take(hash.remaining_data_length as int) =~= d1.skip(@B@ * n)); } }
//@at loop 1 before
    let ghost mut c = n + 1;
    proof { assert(e.len() == @B@ * n + r0.len() + input@.len()); }
//@loop 1
    invariant n >= 0, c >= n + 1, input@.len() <= usize::MAX, e == data(kk, m0) + input@, data(kk, m0).len() == @B@ * n + r0.len(), e.len() < LIM() + @B@, r0.len() + input_data_offset == @B@ * (c - n),
        0 <= input_data_offset < input@.len(),
        hash.hash@ == chain(H, e, c), hash.message_length == @B@ * c,
    decreases input@.len() - input_data_offset
//@at loop 1 start
    proof { assert(e.subrange(@B@ * c, @B@ * (c + 1)) =~= input@.subrange(input_data_offset as int, input_data_offset + @B@)); chain_step(H, e, c + 1); c = c + 1; }
//@at exit
    proof { assert(c == nfull(e.len() as int));
      assert forall|m: Seq<u8>| Self::repr(_ctx, st0, m) && m.len() + input@.len() < LIM() implies Self::repr(_ctx, *hash, m + input@) by {
        b2_facts(kk, nn, st0.hash@, st0.message_length as int, r0, m, input@); reveal(b2_repr); let d1 = data(kk, m + input@); let d = data(kk, m);
        // every message the state stands for has the same number of blocks and the same tail; the chaining values follow from the state
        b2_same(kk, nn, st0.hash@, st0.message_length as int, r0, m, m0, input@, c);
        assert(hash.remaining_data_buffer@.take(hash.remaining_data_length as int) =~= d1.skip(@B@ * c)); } }
//@endfn
//@fn jester_hashes/src/blake/@f@ HashFunction for Blake2@x@::finish_hash
//@at entry
    let ghost st0 = *hash; let ghost kk = ctx.key@; let ghost nn = ctx.output_len as int; let ghost r0 = st0.remaining_data_buffer@.take(st0.remaining_data_length as int);
    let ghost m0 = choose|m: Seq<u8>| Self::repr(ctx, st0, m);
    proof { b2_facts(kk, nn, st0.hash@, st0.message_length as int, r0, m0, seq![]); }
//@at call blake2@x@_compress 1 before
    proof { assert(last_block@ =~= zpad(r0)); }
//@at exit
    proof { assert forall|m: Seq<u8>| Self::repr(ctx, st0, m) implies __ret.bytes() == Self::hash(ctx, m) by {
        b2_facts(kk, nn, st0.hash@, st0.message_length as int, r0, m, seq![]);
        assert(__ret.bytes() =~= Self::hash(ctx, m)); } }
//@endfn
//@fn jester_hashes/src/blake/@f@ HashFunction for Blake2@x@::digest_message
//@at call finish_hash 1 before
    proof { assert(seq![] + input@ =~= input@); assert(Self::repr(ctx, hash_state, input@)); }
//@endfn
}
/// two messages the same state stands for reach the same chaining value after the same further input
proof fn b2_same(key: Seq<u8>, nn: int, h: Seq<@u@>, t: int, rem: Seq<u8>, a: Seq<u8>, b: Seq<u8>, input: Seq<u8>, c: int)
    requires b2_repr(key, nn, h, t, rem, a), b2_repr(key, nn, h, t, rem, b), nfull(data(key, a).len() as int) <= c, @B@ * c <= data(key, a + input).len()
    ensures chain(h0(key.len() as int, nn), data(key, a + input), c) == chain(h0(key.len() as int, nn), data(key, b + input), c), data(key, a + input).len() == data(key, b + input).len()
    decreases c - nfull(data(key, a).len() as int)
{
    b2_facts(key, nn, h, t, rem, a, input); b2_facts(key, nn, h, t, rem, b, input);
    let n = nfull(data(key, a).len() as int); let ea = data(key, a + input); let eb = data(key, b + input); let H = h0(key.len() as int, nn);
    assert(ea.len() == eb.len());
    if c > n {
        b2_same(key, nn, h, t, rem, a, b, input, c - 1); chain_step(H, ea, c); chain_step(H, eb, c);
        assert(ea.skip(@B@ * n) =~= rem + input); assert(eb.skip(@B@ * n) =~= rem + input);
        assert(ea.subrange(@B@ * (c - 1), @B@ * c) =~= (rem + input).subrange(@B@ * (c - 1 - n), @B@ * (c - n)));
        assert(eb.subrange(@B@ * (c - 1), @B@ * c) =~= (rem + input).subrange(@B@ * (c - 1 - n), @B@ * (c - n)));
    }
}
impl BlockHashFunction for Blake2@x@ {
    open spec fn bsize(ctx: &Blake2@x@Context) -> nat { @B@ }
    open spec fn osize(ctx: &Blake2@x@Context) -> nat { ctx.output_len as nat }
    proof fn sizes(ctx: &Blake2@x@Context, m: Seq<u8>) { }
//@fn jester_hashes/src/blake/@f@ BlockHashFunction for Blake2@x@::block_size
//@endfn
//@fn jester_hashes/src/blake/@f@ BlockHashFunction for Blake2@x@::output_size
//@endfn
}
} fn main() {}
'''
def gen(x):
    b = x == 'b'
    W = 64 if b else 32
    iv = ['0x6A09E667F3BCC908','0xBB67AE8584CAA73B','0x3C6EF372FE94F82B','0xA54FF53A5F1D36F1','0x510E527FADE682D1','0x9B05688C2B3E6C1F','0x1F83D9ABFB41BD6B','0x5BE0CD19137E2179'] if b else ['0x6A09E667','0xBB67AE85','0x3C6EF372','0xA54FF53A','0x510E527F','0x9B05688C','0x1F83D9AB','0x5BE0CD19']
    R = (32,24,16,63) if b else (16,12,8,7)
    rot = 'pub assume_specification [u64::rotate_right] (x: u64, n: u32) -> (r: u64) ensures 0 < n < 64 ==> r == rotr(x, n as int);' if b else ''
    d = {'@u@':'u%d'%W,'@W@':str(W),'@WB@':str(W//8),'@LESUM@':' + '.join('b[o + %d] * %s'%(k,hex(1<<(8*k))) if k else 'b[o]' for k in range(W//8)),'@MOD@':hex(1<<W),
     '@IV@':', '.join(iv),'@x@':x,'@X@':x.upper(),'@f@':'blake2%s.rs'%x,'@R1@':str(R[0]),'@R2@':str(R[1]),'@R3@':str(R[2]),'@R4@':str(R[3]),'@B@':'128' if b else '64','@ct@':'u128' if b else 'u64','@RN@':'12' if b else '10','@OUT@':'64' if b else '32',
     '@ROT@':rot if b else '','@SIGPROOF@':' '.join('if i == %d { assert(r@[%d]@ =~= SIG()[%d]); }'%(i,i,i) for i in range(10)),
     '@SGI@':''}
    t = T
    for k in ['@LESUM@','@SIGPROOF@']: t = t.replace(k,d[k])
    for k,v in d.items(): t = t.replace(k,v)
    return t
u = os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','units')
for x in 'bs': open(os.path.join(u,'blake2%s.vrs'%x),'w').write(gen(x))
