// ---------- shared specification of block-wise absorption ----------
pub open spec fn le32(b: Seq<u8>, o: int) -> u32 { (b[o] + 0x100 * b[o+1] + 0x10000 * b[o+2] + 0x1000000 * b[o+3]) as u32 }
pub open spec fn be32(b: Seq<u8>, o: int) -> u32 { (b[o+3] + 0x100 * b[o+2] + 0x10000 * b[o+1] + 0x1000000 * b[o]) as u32 }
pub open spec fn wadd32(a: int, b: int) -> u32 { (if a + b >= 0x1_0000_0000 { a + b - 0x1_0000_0000 } else { a + b }) as u32 }

#[verifier::opaque]
/// fold of the compression function `f` over the first `k` blocks of 64 bytes of `data`
pub open spec fn blocks<H>(f: spec_fn(H, Seq<u8>) -> H, h: H, data: Seq<u8>, k: int) -> H decreases k {
  if k <= 0 { h } else { f(blocks(f, h, data, k - 1), data.subrange(64 * (k - 1), 64 * k)) } }
pub proof fn blocks_zero<H>(f: spec_fn(H, Seq<u8>) -> H, h: H, data: Seq<u8>) ensures blocks(f, h, data, 0) == h { reveal(blocks); }
pub proof fn blocks_step<H>(f: spec_fn(H, Seq<u8>) -> H, h: H, data: Seq<u8>, k: int)
  requires k > 0 ensures blocks(f, h, data, k) == f(blocks(f, h, data, k - 1), data.subrange(64 * (k - 1), 64 * k)) { reveal(blocks); }
pub proof fn blocks_prefix<H>(f: spec_fn(H, Seq<u8>) -> H, h: H, a: Seq<u8>, b: Seq<u8>, k: int)
  requires 0 <= k, 64 * k <= a.len(), 64 * k <= b.len(), a.subrange(0, 64 * k as int) == b.subrange(0, 64 * k as int)
  ensures blocks(f, h, a, k) == blocks(f, h, b, k) decreases k
{ reveal(blocks); if k > 0 {
    assert(a.subrange(64 * (k - 1), 64 * k) =~= a.subrange(0, 64 * k as int).subrange(64 * (k - 1), 64 * k));
    assert(b.subrange(64 * (k - 1), 64 * k) =~= b.subrange(0, 64 * k as int).subrange(64 * (k - 1), 64 * k));
    assert(a.subrange(0, 64 * (k-1)) =~= a.subrange(0, 64 * k as int).subrange(0, 64 * (k-1)));
    assert(b.subrange(0, 64 * (k-1)) =~= b.subrange(0, 64 * k as int).subrange(0, 64 * (k-1)));
    blocks_prefix(f, h, a, b, k - 1); } }
pub proof fn blocks_split<H>(f: spec_fn(H, Seq<u8>) -> H, h: H, a: Seq<u8>, n: int, k: int)
  requires 0 <= n, 0 <= k, 64 * (n + k) <= a.len()
  ensures blocks(f, h, a, n + k) == blocks(f, blocks(f, h, a, n), a.skip(64 * n as int), k) decreases k
{ reveal(blocks); if k > 0 {
    assert(a.skip(64 * n as int).subrange(64 * (k - 1), 64 * k) =~= a.subrange(64 * (n + k - 1), 64 * (n + k)));
    blocks_split(f, h, a, n, k - 1); } }
pub open spec fn len_bytes(le: bool, bits: u64) -> Seq<u8> { Seq::new(8, |j: int| (bits >> ((if le { 8 * j } else { 56 - 8 * j }) as u64)) as u8) }
pub open spec fn md_zeros(len: int) -> nat { ((119 - len % 64) % 64) as nat }
/// RFC 1321 3.1/3.2 and FIPS 180-4 5.1.1: a one bit, the least number of zero bits, the 64-bit bit count
pub open spec fn md_pad(le: bool, m: Seq<u8>) -> Seq<u8> { m + seq![0x80u8] + Seq::new(md_zeros(m.len() as int), |j: int| 0u8) + len_bytes(le, (8 * m.len()) as u64) }
#[verifier::opaque]
pub open spec fn md_hash<H>(f: spec_fn(H, Seq<u8>) -> H, iv: H, le: bool, m: Seq<u8>) -> H { blocks(f, iv, md_pad(le, m), (md_pad(le, m).len() / 64) as int) }
/// the state (h, bits, rem) stands for the message m
#[verifier::opaque]
pub open spec fn md_repr<H>(f: spec_fn(H, Seq<u8>) -> H, iv: H, h: H, bits: int, rem: Seq<u8>, m: Seq<u8>) -> bool {
   &&& h == blocks(f, iv, m, (m.len() / 64) as int)
   &&& bits == 512 * (m.len() / 64)
   &&& rem == m.skip(64 * (m.len() / 64) as int) }
pub proof fn md_absorb<H>(f: spec_fn(H, Seq<u8>) -> H, iv: H, h: H, bits: int, rem: Seq<u8>, m: Seq<u8>, input: Seq<u8>)
  requires md_repr(f, iv, h, bits, rem, m)
  ensures ({ let data = rem + input; let k = (data.len() / 64) as int; md_repr(f, iv, blocks(f, h, data, k), bits + 512 * k, data.skip(64 * k as int), m + input) })
{ reveal(md_repr); let data = rem + input; let k = (data.len() / 64) as int; let n = (m.len() / 64) as int; let t = m + input;
  assert(t.skip(64 * n as int) =~= data);
  assert(t.len() / 64 == n + k);
  blocks_split(f, iv, t, n, k);
  assert(t.subrange(0, 64 * n as int) =~= m.subrange(0, 64 * n as int));
  blocks_prefix(f, iv, t, m, n);
  assert(t.skip(64 * (n + k) as int) =~= data.skip(64 * k as int)); }
pub proof fn md_final<H>(f: spec_fn(H, Seq<u8>) -> H, iv: H, le: bool, h: H, bits: int, rem: Seq<u8>, m: Seq<u8>, tail: Seq<u8>)
  requires md_repr(f, iv, h, bits, rem, m), tail == rem + seq![0x80u8] + Seq::new(md_zeros(rem.len() as int), |j: int| 0u8) + len_bytes(le, (8 * m.len()) as u64)
  ensures tail.len() % 64 == 0, tail.len() == (if rem.len() < 56 { 64int } else { 128int }), blocks(f, h, tail, (tail.len() / 64) as int) == md_hash(f, iv, le, m)
{ reveal(md_repr); reveal(md_hash); let n = (m.len() / 64) as int; let p = md_pad(le, m); let k = (tail.len() / 64) as int;
  assert(rem.len() == m.len() % 64);
  assert(p.skip(64 * n as int) =~= tail);
  assert(p.len() / 64 == n + k);
  blocks_split(f, iv, p, n, k);
  assert(p.subrange(0, 64 * n as int) =~= m.subrange(0, 64 * n as int));
  blocks_prefix(f, iv, p, m, n); }

pub proof fn md_repr_facts<H>(f: spec_fn(H, Seq<u8>) -> H, iv: H, h: H, bits: int, rem: Seq<u8>, m: Seq<u8>)
  requires md_repr(f, iv, h, bits, rem, m) ensures rem.len() == m.len() % 64, bits == 512 * (m.len() / 64), bits + 8 * rem.len() == 8 * m.len() { reveal(md_repr); }
pub proof fn md_repr_empty<H>(f: spec_fn(H, Seq<u8>) -> H, iv: H) ensures md_repr(f, iv, iv, 0, seq![], seq![]) { reveal(md_repr); reveal(blocks); assert(Seq::<u8>::empty().skip(0) =~= seq![]); }
pub open spec fn md_tail(le: bool, rem: Seq<u8>, bits: u64) -> Seq<u8> { rem + seq![0x80u8] + Seq::new(md_zeros(rem.len() as int), |j: int| 0u8) + len_bytes(le, bits) }
/// what one update does, for every message the state may stand for
pub proof fn md_update_all<H>(f: spec_fn(H, Seq<u8>) -> H, iv: H, h: H, bits: int, rem: Seq<u8>, input: Seq<u8>)
  requires exists|m: Seq<u8>| #[trigger] md_repr(f, iv, h, bits, rem, m) && m.len() + input.len() < LIM()
  ensures rem.len() < 64, bits >= 0, rem.len() + input.len() < LIM(), ({ let data = rem + input; let k = (data.len() / 64) as int;
    &&& data.len() < LIM()
    &&& bits + 512 * k + 512 <= u64::MAX
    &&& forall|m: Seq<u8>| #[trigger] md_repr(f, iv, h, bits, rem, m) && m.len() + input.len() < LIM() ==> md_repr(f, iv, blocks(f, h, data, k), bits + 512 * k, data.skip(64 * k as int), m + input) })
{ let data = rem + input; let k = (data.len() / 64) as int;
  let m0 = choose|m: Seq<u8>| #[trigger] md_repr(f, iv, h, bits, rem, m) && m.len() + input.len() < LIM();
  md_repr_facts(f, iv, h, bits, rem, m0);
  assert forall|m: Seq<u8>| #[trigger] md_repr(f, iv, h, bits, rem, m) && m.len() + input.len() < LIM() implies
    md_repr(f, iv, blocks(f, h, data, k), bits + 512 * k, data.skip(64 * k as int), m + input) by { md_absorb(f, iv, h, bits, rem, m, input); } }
/// what finishing does, for every message the state may stand for
pub proof fn md_finish_all<H>(f: spec_fn(H, Seq<u8>) -> H, iv: H, le: bool, h: H, bits: int, rem: Seq<u8>)
  requires exists|m: Seq<u8>| #[trigger] md_repr(f, iv, h, bits, rem, m) && m.len() < LIM()
  ensures rem.len() < 64, bits >= 0, bits + 1536 <= u64::MAX, ({ let tail = md_tail(le, rem, (bits + 8 * rem.len()) as u64);
    &&& tail.len() == (if rem.len() < 56 { 64int } else { 128int })
    &&& forall|j: int| 0 <= j < tail.len() ==> tail[j] == (if j < rem.len() { rem[j] } else if j == rem.len() { 0x80u8 } else if j < tail.len() - 8 { 0u8 } else { len_bytes(le, (bits + 8 * rem.len()) as u64)[j - (tail.len() - 8)] })
    &&& blocks(f, h, tail, 1) == f(h, tail.subrange(0, 64))
    &&& blocks(f, h, tail, 2) == f(f(h, tail.subrange(0, 64)), tail.subrange(64, 128))
    &&& forall|m: Seq<u8>| #[trigger] md_repr(f, iv, h, bits, rem, m) && m.len() < LIM() ==> md_hash(f, iv, le, m) == blocks(f, h, tail, (tail.len() / 64) as int) })
{ let tail = md_tail(le, rem, (bits + 8 * rem.len()) as u64);
  let m0 = choose|m: Seq<u8>| #[trigger] md_repr(f, iv, h, bits, rem, m) && m.len() < LIM();
  md_repr_facts(f, iv, h, bits, rem, m0); md_final(f, iv, le, h, bits, rem, m0, tail);
  blocks_zero(f, h, tail); blocks_step(f, h, tail, 1); blocks_step(f, h, tail, 2);
  assert forall|m: Seq<u8>| #[trigger] md_repr(f, iv, h, bits, rem, m) && m.len() < LIM() implies
    md_hash(f, iv, le, m) == blocks(f, h, tail, (tail.len() / 64) as int) by { md_repr_facts(f, iv, h, bits, rem, m); md_final(f, iv, le, h, bits, rem, m, tail); } }
