
/// number of message bytes below which every statement about a hash function is made
pub open spec fn LIM() -> int { 0x1000_0000_0000_0000 }
// ---------- the contracts of the hashing traits (signatures as in jester_hashes/src/lib.rs) ----------
pub trait HashValue {
    /// the bytes this value stands for
    spec fn bytes(&self) -> Seq<u8>;
    fn raw(&self) -> (r: Vec<u8>) ensures r@ == self.bytes();
}
pub trait HashFunction {
    type Context;
    type HashState;
    type HashData: HashValue;
    /// contexts for which the function is defined
    spec fn valid(ctx: &Self::Context) -> bool;
    /// `st` is a state that has absorbed exactly the message `m`
    spec fn repr(ctx: &Self::Context, st: Self::HashState, m: Seq<u8>) -> bool;
    /// the hash of `m` as the standard defines it
    spec fn hash(ctx: &Self::Context, m: Seq<u8>) -> Seq<u8>;
    fn init_hash(ctx: &Self::Context) -> (r: Self::HashState)
        requires Self::valid(ctx)
        ensures Self::repr(ctx, r, seq![]);
    fn update_hash(hash: &mut Self::HashState, ctx: &Self::Context, input: &[u8])
        requires Self::valid(ctx), exists|m: Seq<u8>| Self::repr(ctx, *old(hash), m) && m.len() + input@.len() < LIM()
        ensures forall|m: Seq<u8>| Self::repr(ctx, *old(hash), m) && m.len() + input@.len() < LIM() ==> Self::repr(ctx, *final(hash), m + input@);
    fn finish_hash(hash: &mut Self::HashState, ctx: &Self::Context) -> (r: Self::HashData)
        requires Self::valid(ctx), exists|m: Seq<u8>| Self::repr(ctx, *old(hash), m)
        ensures forall|m: Seq<u8>| Self::repr(ctx, *old(hash), m) ==> r.bytes() == Self::hash(ctx, m);
    fn digest_message(ctx: &Self::Context, input: &[u8]) -> (r: Self::HashData)
        requires Self::valid(ctx), input@.len() < LIM()
        ensures r.bytes() == Self::hash(ctx, input@);
}
pub trait BlockHashFunction: HashFunction {
    spec fn bsize(ctx: &Self::Context) -> nat;
    spec fn osize(ctx: &Self::Context) -> nat;
    proof fn sizes(ctx: &Self::Context, m: Seq<u8>)
        requires Self::valid(ctx)
        ensures Self::hash(ctx, m).len() == Self::osize(ctx), 0 < Self::osize(ctx) <= Self::bsize(ctx) <= 128;
    fn block_size(ctx: &Self::Context) -> (r: usize) requires Self::valid(ctx) ensures r == Self::bsize(ctx);
    fn output_size(ctx: &Self::Context) -> (r: usize) requires Self::valid(ctx) ensures r == Self::osize(ctx);
}
