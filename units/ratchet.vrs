//@include lib/prelude.vrs
//@include lib/ratchet.vrs
// ---------- two parties: the history of a session ----------
/// one sending chain: the sender's private key, the chain key before its first message, the root
/// key after it was set up, the length of the sender's chain before, and the messages sent
pub struct Ch { pub sk: DHPrivateKey, pub ck: MessageChainKey, pub root: RootChainKey, pub prev: nat, pub sent: Seq<Seq<u8>> }
/// chains alternate between the parties (even: responder, odd: initiator); done: decrypted messages
pub struct W { pub g: DHPublicKey, pub a0: DHPrivateKey, pub root0: RootChainKey, pub c: Seq<Ch>, pub done: Set<(int, int)> }
pub open spec fn pk(w: W, j: int) -> DHPublicKey { dh_pub(w.g, if j < 0 { w.a0 } else { w.c[j].sk }) }
/// chain j continues the root key sequence with the two parties' shared secret
pub open spec fn link(w: W, j: int) -> bool {
    &&& root_kdf(if j == 0 { w.root0 } else { w.c[j - 1].root }, dh_sh(w.c[j].sk, pk(w, j - 1))) == (w.c[j].root, w.c[j].ck)
    &&& w.c[j].prev == if j >= 2 { w.c[j - 2].sent.len() } else { 0 }
}
pub open spec fn wf(w: W) -> bool {
    &&& w.c.len() >= 1
    &&& forall|j: int| 0 <= j < w.c.len() ==> (#[trigger] w.c[j]).sent.len() < usize::MAX
    &&& forall|j: int| 0 <= j < w.c.len() ==> #[trigger] link(w, j)
    &&& forall|i: int, j: int| -1 <= i < j < w.c.len() ==> #[trigger] pk(w, i) != #[trigger] pk(w, j)
}
/// chain j arrives at the party that sends chain s
pub open spec fn inc(s: int, j: int) -> bool { (s - 1 - j) % 2 == 0 }
/// how far chain j has been received by the sender of chain s
pub open spec fn upto(w: W, rlen: int, s: int, j: int) -> int { if j == s - 1 { rlen } else { w.c[j].sent.len() as int } }
/// party state p is what the history w makes of the party that currently sends chain s
pub open spec fn rel(w: W, p: DoubleRatchetProtocol<Established>, s: int) -> bool {
    &&& 0 <= s < w.c.len()
    &&& p.diffie_hellman_generator == w.g && p.diffie_hellman_public_key == pk(w, s) && p.diffie_hellman_private_key == Some(w.c[s].sk)
    &&& p.diffie_hellman_received_key == Some(pk(w, s - 1))
    &&& p.root_chain_key == Some(w.c[s].root)
    &&& p.sending_chain_key == Some(chain(w.c[s].ck, w.c[s].sent.len())) && p.sending_chain_length == w.c[s].sent.len()
    &&& p.previous_sending_chain_length == w.c[s].prev
    &&& if s == 0 { p.receiving_chain_key.is_none() && p.receiving_chain_length == 0 } else { p.receiving_chain_key == Some(chain(w.c[s - 1].ck, p.receiving_chain_length as nat)) && p.receiving_chain_length <= w.c[s - 1].sent.len() }
    &&& store(w, p.missed_messages@, p.retired_public_keys@, p.receiving_chain_length as int, s)
}
/// the stored keys are those of the messages skipped and not yet delivered; the retired keys those of ended chains
#[verifier::opaque]
pub open spec fn store(w: W, missed: Missed, retired: Set<DHPublicKey>, rlen: int, s: int) -> bool {
    &&& forall|k: DHPublicKey| #[trigger] retired.contains(k) <==> is_retired(w, s, k)
    &&& forall|k: DHPublicKey, n: usize| #[trigger] missed.dom().contains((k, n)) ==> exists|j: int| 0 <= j <= s - 1 && k == #[trigger] pk(w, j)
    &&& forall|j: int, n: usize| 0 <= j <= s - 1 && inc(s, j) ==> (#[trigger] missed.dom().contains((pk(w, j), n)) <==> n < upto(w, rlen, s, j) && !w.done.contains((j, n as int)))
    &&& forall|j: int, n: usize| 0 <= j <= s - 1 && inc(s, j) && missed.dom().contains((pk(w, j), n)) ==> #[trigger] missed[(pk(w, j), n)] == mkey(w.c[j].ck, n as nat)
    &&& forall|j: int, n: int| #[trigger] w.done.contains((j, n)) && inc(s, j) ==> 0 <= j <= s - 1 && 0 <= n < upto(w, rlen, s, j)
}
proof fn store_frame(w: W, v: W, missed: Missed, retired: Set<DHPublicKey>, rlen: int, s: int)
    requires store(w, missed, retired, rlen, s), 
        forall|j: int| -1 <= j <= s - 1 ==> #[trigger] pk(v, j) == pk(w, j),
        forall|j: int| 0 <= j <= s - 1 && inc(s, j) ==> (#[trigger] v.c[j]).ck == w.c[j].ck,
        forall|j: int| 0 <= j < s - 1 && inc(s, j) ==> (#[trigger] v.c[j]).sent.len() == w.c[j].sent.len(),
        forall|j: int, n: int| inc(s, j) ==> (#[trigger] v.done.contains((j, n)) <==> w.done.contains((j, n))),
    ensures store(v, missed, retired, rlen, s)
{
    reveal(store);
    assert forall|k: DHPublicKey| is_retired(w, s, k) <==> is_retired(v, s, k) by {
        if is_retired(w, s, k) { let j = choose|j: int| -1 <= j < s - 1 && inc(s, j) && k == #[trigger] pk(w, j); assert(k == pk(v, j)); }
        if is_retired(v, s, k) { let j = choose|j: int| -1 <= j < s - 1 && inc(s, j) && k == #[trigger] pk(v, j); assert(k == pk(w, j)); }
    }
    assert forall|k: DHPublicKey, n: usize| #[trigger] missed.dom().contains((k, n)) implies exists|j: int| 0 <= j <= s - 1 && k == #[trigger] pk(v, j) by {
        let j = choose|j: int| 0 <= j <= s - 1 && k == #[trigger] pk(w, j); assert(k == pk(v, j));
    }
    assert forall|j: int, n: usize| 0 <= j <= s - 1 && inc(s, j) implies (#[trigger] missed.dom().contains((pk(v, j), n)) <==> n < upto(v, rlen, s, j) && !v.done.contains((j, n as int))) by {
        assert(pk(v, j) == pk(w, j)); assert(v.c[j].ck == w.c[j].ck); assert(upto(v, rlen, s, j) == upto(w, rlen, s, j)); }
    assert forall|j: int, n: usize| 0 <= j <= s - 1 && inc(s, j) && missed.dom().contains((pk(v, j), n)) implies #[trigger] missed[(pk(v, j), n)] == mkey(v.c[j].ck, n as nat) by {
        assert(pk(v, j) == pk(w, j)); assert(v.c[j].ck == w.c[j].ck); }
    assert forall|j: int, n: int| #[trigger] v.done.contains((j, n)) && inc(s, j) implies 0 <= j <= s - 1 && 0 <= n < upto(v, rlen, s, j) by {
        assert(w.done.contains((j, n))); assert(0 <= j <= s - 1); assert(v.c[j].ck == w.c[j].ck); }
}
pub open spec fn is_retired(w: W, s: int, k: DHPublicKey) -> bool { exists|j: int| -1 <= j < s - 1 && inc(s, j) && k == #[trigger] pk(w, j) }
/// the initiator before the first message reaches it
pub open spec fn rel0(w: W, a: DoubleRatchetProtocol<Initiator>) -> bool {
    &&& a.diffie_hellman_generator == w.g && a.diffie_hellman_private_key == Some(w.a0) && a.root_chain_key == Some(w.root0)
    &&& w.c.len() == 1 && forall|j: int, n: int| !w.done.contains((j, n))
}
pub open spec fn inv0(w: W, a: DoubleRatchetProtocol<Initiator>, b: DoubleRatchetProtocol<Established>) -> bool { wf(w) && rel0(w, a) && rel(w, b, 0) }
pub open spec fn inv(w: W, p: DoubleRatchetProtocol<Established>, s: int, q: DoubleRatchetProtocol<Established>, t: int) -> bool {
    wf(w) && rel(w, p, s) && rel(w, q, t) && (t == s + 1 && w.c.len() == t + 1 || s == t + 1 && w.c.len() == s + 1)
}
/// m is message n of chain j
pub open spec fn msg_ok(w: W, m: Msg, j: int, n: int) -> bool {
    &&& 0 <= j < w.c.len() && 0 <= n < w.c[j].sent.len()
    &&& m.public_key == pk(w, j) && m.message_number == n && m.previous_chain_length == w.c[j].prev
    &&& m.message.is_some() && m.message.unwrap()@ == enc(mkey(w.c[j].ck, n as nat), w.c[j].sent[n])
}
/// the plaintext a delivery yields, if any
pub open spec fn plain(r: Result<Vec<u8>, DecryptionException>) -> Option<Seq<u8>> {
    match r { Ok(v) => Some(v@), Err(DecryptionException::OutOfOrderMessage { decrypted_message }) => Some(decrypted_message@), _ => None }
}
pub open spec fn w_send(w: W, s: int, m: Seq<u8>) -> W { W { c: w.c.update(s, Ch { sent: w.c[s].sent.push(m), ..w.c[s] }), ..w } }
pub open spec fn w_done(w: W, j: int, n: int) -> W { W { done: w.done.insert((j, n)), ..w } }
/// a new chain after the last one, keyed by private key a; prev: length of the sender's chain before
pub open spec fn w_turn(w: W, a: DHPrivateKey) -> W {
    let l = w.c.len() as int;
    let k = root_kdf(w.c[l - 1].root, dh_sh(a, pk(w, l - 1)));
    W { c: w.c.push(Ch { sk: a, ck: k.1, root: k.0, prev: if l >= 2 { w.c[l - 2].sent.len() } else { 0 }, sent: Seq::empty() }), ..w }
}
/// a drawn key pair is not one of an earlier chain
pub open spec fn fresh(w: W, a: DHPrivateKey) -> bool { forall|j: int| -1 <= j < w.c.len() ==> #[trigger] pk(w, j) != dh_pub(w.g, a) }
pub proof fn wm(m: Missed, x: DHPublicKey, k: MessageChainKey, a: int, n: nat)
    requires 0 <= a, a + n <= usize::MAX + 1
    ensures forall|y: DHPublicKey, i: usize| #[trigger] with_missed(m, x, k, a, n).dom().contains((y, i)) <==> m.dom().contains((y, i)) || (y == x && a <= i < a + n),
        forall|y: DHPublicKey, i: usize| #[trigger] with_missed(m, x, k, a, n)[(y, i)] == if y == x && a <= i < a + n { mkey(k, (i - a) as nat) } else { m[(y, i)] }
    decreases n
{
    if n > 0 {
        wm(m, x, k, a, (n - 1) as nat);
        let z = (a + n - 1) as usize;
        assert(z as int == a + n - 1);
        let (u, v) = (with_missed(m, x, k, a, (n - 1) as nat), with_missed(m, x, k, a, n));
        assert(v == u.insert((x, z), mkey(k, (n - 1) as nat)));
        assert forall|y: DHPublicKey, i: usize| #[trigger] v.dom().contains((y, i)) <==> m.dom().contains((y, i)) || (y == x && a <= i < a + n) by {
            assert(v.dom().contains((y, i)) <==> (y, i) == (x, z) || u.dom().contains((y, i)));
        }
        assert forall|y: DHPublicKey, i: usize| #[trigger] v[(y, i)] == (if y == x && a <= i < a + n { mkey(k, (i - a) as nat) } else { m[(y, i)] }) by {
            if (y, i) != (x, z) { assert(v[(y, i)] == u[(y, i)]); }
        }
    }
}
pub proof fn chain_add(k: MessageChainKey, a: nat, b: nat) ensures chain(chain(k, a), b) == chain(k, a + b) decreases b
{ if b > 0 { chain_add(k, a, (b - 1) as nat); assert((a + b - 1) as nat == a + (b - 1) as nat); } }
proof fn pk_distinct(w: W, i: int, j: int) requires wf(w), -1 <= i < w.c.len(), -1 <= j < w.c.len(), i != j ensures pk(w, i) != pk(w, j) { if i < j { } else { } }
// ---------- the steps ----------
/// set-up: both parties' states come from the same root key and the initiator's public key
fn setup(rng: &mut VpRng, g: DHPublicKey, g2: DHPublicKey, root: RootChainKey, root2: RootChainKey) -> (r: (DoubleRatchetProtocol<Initiator>, DoubleRatchetProtocol<Established>, Ghost<W>))
    requires g == g2, root == root2
    ensures pk(r.2@, -1) != pk(r.2@, 0) ==> inv0(r.2@, r.0, r.1), r.2@.c[0].sent.len() == 0
{
    let ghost vg = g; let ghost vroot = root;
    let (a, m) = DoubleRatchetProtocol::initialize_sending(rng, g, root);
    let ghost a0 = rng.log().last();
    let b = DoubleRatchetProtocol::initialize_receiving(rng, g2, m.public_key, root2);
    let ghost k = root_kdf(vroot, dh_sh(rng.log().last(), dh_pub(vg, a0)));
    let ghost w = W { g: vg, a0, root0: vroot, c: seq![Ch { sk: rng.log().last(), ck: k.1, root: k.0, prev: 0, sent: Seq::empty() }], done: Set::empty() };
    proof { reveal(store); reveal_with_fuel(chain, 2); assert(w.c.len() == 1);
        assert forall|k: DHPublicKey| !is_retired(w, 0, k) by {} }
    (a, b, Ghost(w))
}
proof fn send_frame(w: W, s: int, m: Seq<u8>, q: DoubleRatchetProtocol<Established>, t: int)
    requires wf(w), 0 <= s < w.c.len(), rel(w, q, t), t == s + 1 || t == s - 1, w.c[s].sent.len() + 1 < usize::MAX, s + 2 >= w.c.len()
    ensures wf(w_send(w, s, m)), rel(w_send(w, s, m), q, t)
{
    let v = w_send(w, s, m);
    assert forall|j: int| 0 <= j < v.c.len() implies #[trigger] link(v, j) by { assert(pk(v, j - 1) == pk(w, j - 1)); assert(link(w, j)); }
    assert forall|j: int| -1 <= j < w.c.len() implies #[trigger] pk(v, j) == pk(w, j) by {}
    store_frame(w, v, q.missed_messages@, q.retired_public_keys@, q.receiving_chain_length as int, t);
}
/// R04: the header and the key of a sent message
fn send(x: &mut DoubleRatchetProtocol<Established>, message: &[u8], Ghost(w): Ghost<W>, Ghost(s): Ghost<int>) -> (r: (Msg, Ghost<W>))
    requires wf(w), rel(w, *old(x), s), w.c[s].sent.len() + 1 < usize::MAX, s + 2 >= w.c.len()
    ensures r.1@ == w_send(w, s, message@), wf(r.1@), rel(r.1@, *final(x), s),
        msg_ok(r.1@, r.0, s, w.c[s].sent.len() as int), r.1@.c[s].sent.last() == message@,
        r.0.message_number == w.c[s].sent.len(), r.0.public_key == pk(w, s), r.0.previous_chain_length == w.c[s].prev,
        r.0.message.unwrap()@ == enc(mkey(w.c[s].ck, w.c[s].sent.len()), message@),
        // the other party's state still fits the history
        forall|y: DoubleRatchetProtocol<Established>, t: int| #[trigger] rel(w, y, t) && (t == s + 1 || t == s - 1) ==> rel(r.1@, y, t),
        forall|a: DoubleRatchetProtocol<Initiator>| #[trigger] rel0(w, a) ==> rel0(r.1@, a),
{
    let ghost p = *x;
    let m = x.encrypt_message(message);
    let ghost v = w_send(w, s, message@);
    proof {
        let n = w.c[s].sent.len();
        chain_add(w.c[s].ck, n, 0); chain_add(w.c[s].ck, n, 1);
        reveal_with_fuel(chain, 2);
        own_frame(w, s, message@, *x, p);
        assert forall|y: DoubleRatchetProtocol<Established>, t: int| #[trigger] rel(w, y, t) && (t == s + 1 || t == s - 1) implies rel(v, y, t) by { send_frame(w, s, message@, y, t); }
    }
    (m, Ghost(v))
}
proof fn own_frame(w: W, s: int, m: Seq<u8>, q: DoubleRatchetProtocol<Established>, p: DoubleRatchetProtocol<Established>)
    requires wf(w), rel(w, p, s), w.c[s].sent.len() + 1 < usize::MAX, s + 2 >= w.c.len(),
        q == (DoubleRatchetProtocol::<Established> { sending_chain_key: Some(chain(w.c[s].ck, w.c[s].sent.len() + 1)), sending_chain_length: (p.sending_chain_length + 1) as usize, ..p })
    ensures wf(w_send(w, s, m)), rel(w_send(w, s, m), q, s)
{
    let v = w_send(w, s, m);
    assert forall|j: int| 0 <= j < v.c.len() implies #[trigger] link(v, j) by { assert(pk(v, j - 1) == pk(w, j - 1)); assert(link(w, j)); }
    assert forall|j: int| -1 <= j < w.c.len() implies #[trigger] pk(v, j) == pk(w, j) by {}
    store_frame(w, v, q.missed_messages@, q.retired_public_keys@, q.receiving_chain_length as int, s);
}
// ---------- the store of skipped keys under each kind of delivery ----------
proof fn store_take(w: W, missed: Missed, retired: Set<DHPublicKey>, rlen: int, s: int, j: int, n: usize)
    requires wf(w), 0 <= s <= w.c.len(), store(w, missed, retired, rlen, s), 0 <= j <= s - 1, inc(s, j), missed.dom().contains((pk(w, j), n))
    ensures store(w_done(w, j, n as int), missed.remove((pk(w, j), n)), retired, rlen, s)
{
    reveal(store);
    let v = w_done(w, j, n as int);
    let key = (pk(w, j), n);
    let mm = missed.remove(key);
    assert forall|i: int| -1 <= i < w.c.len() implies #[trigger] pk(v, i) == pk(w, i) by {}
    assert forall|k: DHPublicKey| is_retired(w, s, k) <==> is_retired(v, s, k) by {
        if is_retired(w, s, k) { let j = choose|j: int| -1 <= j < s - 1 && inc(s, j) && k == #[trigger] pk(w, j); assert(k == pk(v, j)); }
        if is_retired(v, s, k) { let j = choose|j: int| -1 <= j < s - 1 && inc(s, j) && k == #[trigger] pk(v, j); assert(k == pk(w, j)); }
    }
    assert forall|k: DHPublicKey, n: usize| #[trigger] mm.dom().contains((k, n)) implies exists|j: int| 0 <= j <= s - 1 && k == #[trigger] pk(v, j) by {
        assert(missed.dom().contains((k, n)));
        let j = choose|j: int| 0 <= j <= s - 1 && k == #[trigger] pk(w, j); assert(k == pk(v, j));
    }
    assert forall|i: int, z: usize| 0 <= i <= s - 1 && inc(s, i) implies (#[trigger] mm.dom().contains((pk(v, i), z)) <==> z < upto(v, rlen, s, i) && !v.done.contains((i, z as int))) by {
        assert(pk(v, i) == pk(w, i));
        if i != j { pk_distinct(w, i, j); }
        assert(mm.dom().contains((pk(w, i), z)) <==> missed.dom().contains((pk(w, i), z)) && !(i == j && z == n));
        assert(v.done.contains((i, z as int)) <==> w.done.contains((i, z as int)) || (i == j && z == n));
    }
    assert forall|i: int, z: usize| 0 <= i <= s - 1 && inc(s, i) && mm.dom().contains((pk(v, i), z)) implies #[trigger] mm[(pk(v, i), z)] == mkey(v.c[i].ck, z as nat) by {
        assert(pk(v, i) == pk(w, i)); assert(missed.dom().contains((pk(w, i), z))); assert(mm[(pk(w, i), z)] == missed[(pk(w, i), z)]);
    }
    assert forall|i: int, z: int| #[trigger] v.done.contains((i, z)) && inc(s, i) implies 0 <= i <= s - 1 && 0 <= z < upto(v, rlen, s, i) by {
        if !(i == j && z == n) { assert(w.done.contains((i, z))); } else { assert(missed.dom().contains((pk(w, j), n))); }
    }
}
proof fn store_skip(w: W, missed: Missed, retired: Set<DHPublicKey>, rlen: int, s: int, a: nat)
    requires wf(w), 1 <= s <= w.c.len(), store(w, missed, retired, rlen, s), 0 <= rlen, rlen + a <= w.c[s - 1].sent.len()
    ensures store(w, with_missed(missed, pk(w, s - 1), chain(w.c[s - 1].ck, rlen as nat), rlen, a), retired, rlen + a, s)
{
    reveal(store);
    let x = pk(w, s - 1); let k = w.c[s - 1].ck;
    wm(missed, x, chain(k, rlen as nat), rlen, a);
    let mm = with_missed(missed, x, chain(k, rlen as nat), rlen, a);
    assert forall|i: int, z: usize| 0 <= i <= s - 1 && inc(s, i) implies (#[trigger] mm.dom().contains((pk(w, i), z)) <==> z < upto(w, rlen + a, s, i) && !w.done.contains((i, z as int))) by {
        if i != s - 1 { pk_distinct(w, i, s - 1); }
        assert(missed.dom().contains((pk(w, i), z)) <==> z < upto(w, rlen, s, i) && !w.done.contains((i, z as int)));
        if w.done.contains((i, z as int)) { assert(z < upto(w, rlen, s, i)); }
    }
    assert forall|i: int, z: usize| 0 <= i <= s - 1 && inc(s, i) && mm.dom().contains((pk(w, i), z)) implies #[trigger] mm[(pk(w, i), z)] == mkey(w.c[i].ck, z as nat) by {
        if i != s - 1 { pk_distinct(w, i, s - 1); }
        if pk(w, i) == x && rlen <= z < rlen + a { chain_add(k, rlen as nat, (z - rlen) as nat); }
        else { assert(missed.dom().contains((pk(w, i), z))); assert(missed[(pk(w, i), z)] == mkey(w.c[i].ck, z as nat)); }
    }
    assert forall|kk: DHPublicKey, n: usize| #[trigger] mm.dom().contains((kk, n)) implies exists|j: int| 0 <= j <= s - 1 && kk == #[trigger] pk(w, j) by {
        if !missed.dom().contains((kk, n)) { assert(kk == pk(w, s - 1)); }
    }
    assert forall|i: int, z: int| #[trigger] w.done.contains((i, z)) && inc(s, i) implies 0 <= i <= s - 1 && 0 <= z < upto(w, rlen + a, s, i) by { assert(z < upto(w, rlen, s, i)); }
}
proof fn store_next(w: W, missed: Missed, retired: Set<DHPublicKey>, rlen: int, s: int)
    requires wf(w), 1 <= s <= w.c.len(), store(w, missed, retired, rlen, s), 0 <= rlen < w.c[s - 1].sent.len()
    ensures store(w_done(w, s - 1, rlen), missed, retired, rlen + 1, s)
{
    reveal(store);
    let v = w_done(w, s - 1, rlen);
    assert forall|i: int| -1 <= i < w.c.len() implies #[trigger] pk(v, i) == pk(w, i) by {}
    assert forall|k: DHPublicKey| is_retired(w, s, k) <==> is_retired(v, s, k) by {
        if is_retired(w, s, k) { let j = choose|j: int| -1 <= j < s - 1 && inc(s, j) && k == #[trigger] pk(w, j); assert(k == pk(v, j)); }
        if is_retired(v, s, k) { let j = choose|j: int| -1 <= j < s - 1 && inc(s, j) && k == #[trigger] pk(v, j); assert(k == pk(w, j)); }
    }
    assert forall|k: DHPublicKey, n: usize| #[trigger] missed.dom().contains((k, n)) implies exists|j: int| 0 <= j <= s - 1 && k == #[trigger] pk(v, j) by {
        let j = choose|j: int| 0 <= j <= s - 1 && k == #[trigger] pk(w, j); assert(k == pk(v, j));
    }
    assert forall|i: int, z: usize| 0 <= i <= s - 1 && inc(s, i) implies (#[trigger] missed.dom().contains((pk(v, i), z)) <==> z < upto(v, rlen + 1, s, i) && !v.done.contains((i, z as int))) by {
        assert(pk(v, i) == pk(w, i));
        assert(v.done.contains((i, z as int)) <==> w.done.contains((i, z as int)) || (i == s - 1 && z == rlen));
    }
    assert forall|i: int, z: usize| 0 <= i <= s - 1 && inc(s, i) && missed.dom().contains((pk(v, i), z)) implies #[trigger] missed[(pk(v, i), z)] == mkey(v.c[i].ck, z as nat) by {
        assert(pk(v, i) == pk(w, i)); assert(missed.dom().contains((pk(w, i), z)));
    }
    assert forall|i: int, z: int| #[trigger] v.done.contains((i, z)) && inc(s, i) implies 0 <= i <= s - 1 && 0 <= z < upto(v, rlen + 1, s, i) by {
        if !(i == s - 1 && z == rlen) { assert(w.done.contains((i, z))); assert(z < upto(w, rlen, s, i)); }
    }
}
proof fn wf_turn(w: W, a: DHPrivateKey) requires wf(w), fresh(w, a) ensures wf(w_turn(w, a))
{
    let v = w_turn(w, a);
    assert forall|i: int| -1 <= i < w.c.len() implies #[trigger] pk(v, i) == pk(w, i) by {}
    assert forall|i: int, j: int| -1 <= i < j < v.c.len() implies #[trigger] pk(v, i) != #[trigger] pk(v, j) by {
        assert(pk(v, i) == pk(w, i)); if j < w.c.len() { assert(pk(v, j) == pk(w, j)); } else { assert(pk(v, j) == dh_pub(w.g, a)); }
    }
    assert forall|j: int| 0 <= j < v.c.len() implies #[trigger] link(v, j) by {
        assert(pk(v, j - 1) == pk(w, j - 1)); if j < w.c.len() { assert(link(w, j)); assert(v.c[j] == w.c[j]); }
    }
}
proof fn store_turn(w: W, missed: Missed, retired: Set<DHPublicKey>, rlen: int, s: int, a: DHPrivateKey)
    requires wf(w), s >= 0, w.c.len() == s + 2, store(w, missed, retired, rlen, s), fresh(w, a), if s >= 1 { rlen == w.c[s - 1].sent.len() } else { rlen == 0 }
    ensures wf(w_turn(w, a)), store(w_turn(w, a), missed, retired.insert(pk(w, s - 1)), 0, s + 2)
{
    reveal(store);
    let v = w_turn(w, a);
    let ret = retired.insert(pk(w, s - 1));
    assert forall|i: int| -1 <= i < w.c.len() implies #[trigger] pk(v, i) == pk(w, i) by {}
    wf_turn(w, a);
    assert forall|k: DHPublicKey| #[trigger] ret.contains(k) <==> is_retired(v, s + 2, k) by {
        if is_retired(w, s, k) { let j = choose|j: int| -1 <= j < s - 1 && inc(s, j) && k == #[trigger] pk(w, j); assert(k == pk(v, j)); assert(inc(s + 2, j)); }
        if k == pk(w, s - 1) { assert(k == pk(v, s - 1)); assert(inc(s + 2, s - 1)); }
        if is_retired(v, s + 2, k) { let j = choose|j: int| -1 <= j < s + 1 && inc(s + 2, j) && k == #[trigger] pk(v, j); assert(k == pk(w, j)); assert(inc(s, j)); }
    }
    assert forall|k: DHPublicKey, n: usize| #[trigger] missed.dom().contains((k, n)) implies exists|j: int| 0 <= j <= s + 1 && k == #[trigger] pk(v, j) by {
        let j = choose|j: int| 0 <= j <= s - 1 && k == #[trigger] pk(w, j); assert(k == pk(v, j));
    }
    assert forall|i: int, z: usize| 0 <= i <= s + 1 && inc(s + 2, i) implies (#[trigger] missed.dom().contains((pk(v, i), z)) <==> z < upto(v, 0, s + 2, i) && !v.done.contains((i, z as int))) by {
        assert(pk(v, i) == pk(w, i)); assert(inc(s, i));
        if i == s + 1 {
            if missed.dom().contains((pk(w, i), z)) { let j = choose|j: int| 0 <= j <= s - 1 && pk(w, i) == #[trigger] pk(w, j); pk_distinct(w, i, j); }
        } else { assert(v.c[i] == w.c[i]); assert(i <= s - 1); assert(upto(v, 0, s + 2, i) == upto(w, rlen, s, i)); }
    }
    assert forall|i: int, z: usize| 0 <= i <= s + 1 && inc(s + 2, i) && missed.dom().contains((pk(v, i), z)) implies #[trigger] missed[(pk(v, i), z)] == mkey(v.c[i].ck, z as nat) by {
        assert(pk(v, i) == pk(w, i)); assert(inc(s, i)); assert(v.c[i] == w.c[i]);
        if i == s + 1 { let j = choose|j: int| 0 <= j <= s - 1 && pk(w, i) == #[trigger] pk(w, j); pk_distinct(w, i, j); }
        assert(i <= s - 1);
    }
    assert forall|i: int, z: int| #[trigger] v.done.contains((i, z)) && inc(s + 2, i) implies 0 <= i <= s + 1 && 0 <= z < upto(v, 0, s + 2, i) by { assert(inc(s, i)); assert(w.done.contains((i, z))); assert(v.c[i] == w.c[i]); }
}
/// the other party's state is unaffected
proof fn peer_frame(w: W, v: W, q: DoubleRatchetProtocol<Established>, t: int)
    requires rel(w, q, t), wf(w), v.g == w.g, v.a0 == w.a0, v.c.len() >= w.c.len(), forall|j: int| 0 <= j < w.c.len() ==> v.c[j] == w.c[j],
        forall|j: int, n: int| inc(t, j) ==> (#[trigger] v.done.contains((j, n)) <==> w.done.contains((j, n))),
    ensures rel(v, q, t)
{
    assert forall|j: int| -1 <= j < w.c.len() implies #[trigger] pk(v, j) == pk(w, j) by {}
    store_frame(w, v, q.missed_messages@, q.retired_public_keys@, q.receiving_chain_length as int, t);
}
// ---------- deliveries ----------
/// which store entry, retired key or class a header gets
proof fn class_of(w: W, p: DoubleRatchetProtocol<Established>, s: int, m: Msg, j: int, n: int)
    requires wf(w), rel(w, p, s), msg_ok(w, m, j, n), inc(s, j), j <= s + 1
    ensures
        p.missed_messages@.dom().contains((m.public_key, m.message_number)) <==> j <= s - 1 && n < upto(w, p.receiving_chain_length as int, s, j) && !w.done.contains((j, n)),
        p.missed_messages@.dom().contains((m.public_key, m.message_number)) ==> p.missed_messages@[(m.public_key, m.message_number)] == mkey(w.c[j].ck, n as nat),
        j < s - 1 ==> classify(p, m) == Class::Late,
        j == s - 1 && n < p.receiving_chain_length ==> classify(p, m) == Class::Late,
        j == s - 1 && n >= p.receiving_chain_length ==> classify(p, m) == Class::Ok((n - p.receiving_chain_length) as nat, 0),
        j == s + 1 ==> classify(p, m) == Class::Ok((w.c[j].prev - p.receiving_chain_length) as nat, n as nat),
        j == s + 1 ==> w.c[j].prev >= p.receiving_chain_length && w.c[j].prev == if s >= 1 { w.c[s - 1].sent.len() } else { 0 },
        is_new(p, m.public_key) <==> j != s - 1,
        w.done.contains((j, n)) ==> j <= s - 1 && n < upto(w, p.receiving_chain_length as int, s, j),
{
    reveal(store);
    let k = m.public_key;
    let z = m.message_number;
    assert(link(w, j));
    if j > s - 1 && p.missed_messages@.dom().contains((k, z)) { let i = choose|i: int| 0 <= i <= s - 1 && k == #[trigger] pk(w, i); pk_distinct(w, i, j); }
    if is_retired(w, s, k) { let i = choose|i: int| -1 <= i < s - 1 && inc(s, i) && k == #[trigger] pk(w, i); if i != j { pk_distinct(w, i, j); } }
    if j < s - 1 { assert(is_retired(w, s, k)); }
    if j != s - 1 { pk_distinct(w, j, s - 1); }
}
/// R01, R02, R03: the delivery of a genuine message, in any order, replayed or not
fn deliver(x: &mut DoubleRatchetProtocol<Established>, rng: &mut VpRng, m: Msg, Ghost(w): Ghost<W>, Ghost(s): Ghost<int>,
    Ghost(y): Ghost<DoubleRatchetProtocol<Established>>, Ghost(t): Ghost<int>, Ghost(j): Ghost<int>, Ghost(n): Ghost<int>) -> (r: (Result<Vec<u8>, DecryptionException>, Ghost<W>))
    requires inv(w, *old(x), s, y, t), msg_ok(w, m, j, n), inc(s, j)
    ensures
        // a message decrypts to its plaintext the first time it arrives
        !w.done.contains((j, n)) ==> plain(r.0) == Some(w.c[j].sent[n]),
        !w.done.contains((j, n)) && j <= s ==> r.1@ == w_done(w, j, n) && inv(r.1@, *final(x), s, y, t),
        !w.done.contains((j, n)) && j == s + 1 ==> final(rng).log().len() == old(rng).log().len() + 1 && r.1@ == w_done(w_turn(w, final(rng).log().last()), j, n)
            && (fresh(w, final(rng).log().last()) ==> inv(r.1@, *final(x), s + 2, y, t)),
        // and only then
        w.done.contains((j, n)) ==> plain(r.0).is_none() && r.0 is Err && same_state(*old(x), *final(x)) && r.1@ == w && inv(w, *final(x), s, y, t),
{
    let ghost p = *x;
    let ghost mm = m;
    let ghost rl = p.receiving_chain_length as int;
    proof { class_of(w, p, s, m, j, n); assert(j <= s + 1); assert(link(w, j)); if j >= 2 { assert(w.c[j - 2].sent.len() < usize::MAX); } enc_dec(mkey(w.c[j].ck, n as nat), w.c[j].sent[n]); if j == s - 1 && n >= rl { chain_add(w.c[j].ck, rl as nat, (n - rl) as nat); chain_add(w.c[j].ck, rl as nat, (n - rl + 1) as nat); } 
        if j == s + 1 { dh_agree(w.g, w.c[s].sk, w.c[j].sk); assert(link(w, j)); assert(new_keys(p, m.public_key) == (w.c[j].root, w.c[j].ck)); } }
    let r = x.decrypt_message(rng, m);
    let ghost q = *x;
    let ghost a = rng.log().last();
    let ghost v = if w.done.contains((j, n)) { w } else if j <= s { w_done(w, j, n) } else { w_done(w_turn(w, a), j, n) };
    proof {
        if w.done.contains((j, n)) {
        } else if j <= s && n < upto(w, rl, s, j) {
            store_take(w, p.missed_messages@, p.retired_public_keys@, rl, s, j, n as usize);
            wf_done(w, j, n);
            peer_frame(w, v, y, t);
        } else if j == s - 1 {
            let c = (n - rl) as nat;
            if c > 0 { store_skip(w, p.missed_messages@, p.retired_public_keys@, rl, s, c); }
            assert(missed1(p, c) == if c == 0 { p.missed_messages@ } else { with_missed(p.missed_messages@, pk(w, s - 1), chain(w.c[s - 1].ck, rl as nat), rl, c) });
            store_next(w, q.missed_messages@, q.retired_public_keys@, n, s);
            wf_done(w, j, n);
            peer_frame(w, v, y, t);
        } else if fresh(w, a) {
            deliver_new(w, p, s, q, y, t, mm, j, n, a);
        }
    }
    (r, Ghost(v))
}
proof fn wf_done(w: W, j: int, n: int) requires wf(w) ensures wf(w_done(w, j, n))
{
    let v = w_done(w, j, n);
    assert forall|i: int| -1 <= i < w.c.len() implies #[trigger] pk(v, i) == pk(w, i) by {}
    assert forall|i: int| 0 <= i < v.c.len() implies #[trigger] link(v, i) by { assert(pk(v, i - 1) == pk(w, i - 1)); assert(link(w, i)); }
}
proof fn deliver_new(w: W, p: DoubleRatchetProtocol<Established>, s: int, q: DoubleRatchetProtocol<Established>, y: DoubleRatchetProtocol<Established>, t: int, m: Msg, j: int, n: int, a: DHPrivateKey)
    requires inv(w, p, s, y, t), msg_ok(w, m, j, n), j == s + 1, !w.done.contains((j, n)), fresh(w, a),
        classify(p, m) is Ok, step_new(p, classify(p, m)->Ok_0, n as nat, m.public_key, a, q)
    ensures inv(w_done(w_turn(w, a), j, n), q, s + 2, y, t)
{
    let rl = p.receiving_chain_length as int;
    class_of(w, p, s, m, j, n);
    let c = (w.c[j].prev - rl) as nat;
    let m1 = missed1(p, c);
    if c > 0 { store_skip(w, p.missed_messages@, p.retired_public_keys@, rl, s, c); }
    assert(store(w, m1, p.retired_public_keys@, rl + c, s));
    store_turn(w, m1, p.retired_public_keys@, rl + c, s, a);
    let u = w_turn(w, a);
    let ret = p.retired_public_keys@.insert(pk(w, s - 1));
    dh_agree(w.g, w.c[s].sk, w.c[j].sk);
    assert(link(w, j));
    assert(new_keys(p, m.public_key) == (w.c[j].root, w.c[j].ck));
    assert(pk(u, s + 1) == pk(w, s + 1)); assert(u.c[j] == w.c[j]);
    store_skip(u, m1, ret, 0, s + 2, n as nat);
    store_next(u, q.missed_messages@, ret, n, s + 2);
    wf_done(u, j, n);
    let v = w_done(u, j, n);
    peer_frame(w, v, y, t);
}
/// the initiator's first reception (of any message of the responder's first chain)
fn first(a: DoubleRatchetProtocol<Initiator>, rng: &mut VpRng, m: Msg, Ghost(w): Ghost<W>, Ghost(b): Ghost<DoubleRatchetProtocol<Established>>, Ghost(n): Ghost<int>)
    -> (r: (DoubleRatchetProtocol<Established>, Vec<u8>, Ghost<W>))
    requires inv0(w, a, b), msg_ok(w, m, 0, n)
    ensures r.1@ == w.c[0].sent[n], final(rng).log().len() == old(rng).log().len() + 1,
        r.2@ == w_done(w_turn(w, final(rng).log().last()), 0, n),
        fresh(w, final(rng).log().last()) ==> inv(r.2@, r.0, 1, b, 0)
{
    let ghost ga = a;
    proof { enc_dec(mkey(w.c[0].ck, n as nat), w.c[0].sent[n]); dh_agree(w.g, w.a0, w.c[0].sk); assert(link(w, 0)); }
    let (q, text) = a.decrypt_first_message(rng, m);
    let ghost s = rng.log().last();
    let ghost v = w_done(w_turn(w, s), 0, n);
    proof {
        if fresh(w, s) {
            let u = w_turn(w, s);
            wf_turn(w, s);
            assert(store(u, Map::empty(), Set::empty(), 0, 1)) by {
                reveal(store);
                assert forall|k: DHPublicKey| !is_retired(u, 1, k) by {}
            }
            assert(pk(u, 0) == pk(w, 0)); assert(u.c[0] == w.c[0]);
            store_skip(u, Map::empty(), Set::empty(), 0, 1, n as nat);
            store_next(u, q.missed_messages@, Set::empty(), n, 1);
            wf_done(u, 0, n);
            peer_frame(w, v, b, 0);
        }
    }
    (q, text, Ghost(v))
}
/// R03: a header that claims fewer messages in the previous chain than were received
fn contradict(x: &mut DoubleRatchetProtocol<Established>, rng: &mut VpRng, m: Msg) -> (r: Result<Vec<u8>, DecryptionException>)
    requires classify(*old(x), m) == Class::Illegal, m.message.is_some(), m.message_number < usize::MAX, m.previous_chain_length < usize::MAX,
        old(x).receiving_chain_length < usize::MAX, old(x).diffie_hellman_private_key.is_some(), old(x).root_chain_key.is_some(),
    ensures r is Err, plain(r).is_none(), same_state(*old(x), *final(x)), final(rng).log() == old(rng).log()
{
    x.decrypt_message(rng, m)
}
} fn main() {}
