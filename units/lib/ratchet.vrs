// ---------- the double ratchet over opaque key types ----------
//@alias R = jester_double_ratchet/src/lib.rs
//@garg DoubleRatchetProtocol 10
//@gsub state:: => 
//@gsub crate::DecryptionException:: => DecryptionException::
//@gsub UnknownMessageHeader => DecryptionException::UnknownMessageHeader
//@gsub OutOfOrderMessage => DecryptionException::OutOfOrderMessage
use std::collections::{HashMap, HashSet}; use std::marker::PhantomData; use vstd::std_specs::cmp::*; use vstd::std_specs::hash::*;
pub trait ProtocolState {}
//@item R Initiator
//@item R Established
impl ProtocolState for Initiator {}
impl ProtocolState for Established {}
// the type parameters of the protocol, each as an arbitrary opaque type of the same name
#[verifier::external_body] // any type with lawful Clone, Eq and Hash
pub struct DHPublicKey { _x: u64 }
#[verifier::external_body] // any type
pub struct DHPrivateKey { _x: u64 }
#[verifier::external_body] // any type
pub struct DHSharedKey { _x: u64 }
#[verifier::external_body] // any type
pub struct RootChainKey { _x: u64 }
#[verifier::external_body] // any type
pub struct MessageChainKey { _x: u64 }
#[verifier::external_body] // any type
pub struct MessageKey { _x: u64 }
#[verifier::external_body] // any type
pub struct KdfInput { _x: u64 }
pub struct DHScheme {} pub struct EncryptionScheme {} pub struct RootKdf {} pub struct MessageKdf {}
#[verifier::external_body] // a random number generator; its log lists the private keys drawn
pub struct VpRng { _x: u64 }
impl VpRng { pub uninterp spec fn log(&self) -> Seq<DHPrivateKey>; }
impl Clone for DHPublicKey { #[verifier::external_body] // lawful Clone
    fn clone(&self) -> (r: DHPublicKey) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl<DHPublicKey> for DHPublicKey { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &DHPublicKey) -> bool { *self == *o } }
impl core::cmp::PartialEq<DHPublicKey> for DHPublicKey { #[verifier::external_body] // lawful Eq
    fn eq(&self, o: &DHPublicKey) -> bool { unimplemented!() } }
impl core::cmp::Eq for DHPublicKey {}
impl core::hash::Hash for DHPublicKey { #[verifier::external_body] // lawful Hash
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
#[verifier::external_body] // lawful Eq and Hash: keys found in a map are the keys put there
pub proof fn key_model() ensures obeys_key_model::<(DHPublicKey, usize)>(), obeys_key_model::<DHPublicKey>() {}
// the primitives
pub uninterp spec fn dh_pub(g: DHPublicKey, a: DHPrivateKey) -> DHPublicKey;
pub uninterp spec fn dh_sh(a: DHPrivateKey, x: DHPublicKey) -> DHSharedKey;
#[verifier::external_body] // the two parties' shared secrets agree (E01 proves it for the field instance)
pub proof fn dh_agree(g: DHPublicKey, a: DHPrivateKey, b: DHPrivateKey) ensures dh_sh(a, dh_pub(g, b)) == dh_sh(b, dh_pub(g, a)) {}
impl DHScheme {
#[verifier::external_body] // trait contract of DiffieHellmanKeyExchangeScheme
pub fn generate_asymmetrical_key_pair(rng: &mut VpRng, g: &DHPublicKey) -> (r: (DHPrivateKey, DHPublicKey))
    ensures r.1 == dh_pub(*g, r.0), final(rng).log() == old(rng).log().push(r.0) { unimplemented!() }
#[verifier::external_body] // trait contract of DiffieHellmanKeyExchangeScheme
pub fn generate_shared_secret(a: &DHPrivateKey, x: &DHPublicKey) -> (r: DHSharedKey) ensures r == dh_sh(*a, *x) { unimplemented!() }
}
pub uninterp spec fn root_kdf(k: RootChainKey, i: DHSharedKey) -> (RootChainKey, MessageChainKey);
pub uninterp spec fn msg_kdf_in(k: MessageChainKey, i: KdfInput) -> (MessageChainKey, MessageKey);
pub uninterp spec fn kdf_input() -> KdfInput;
impl RootKdf {
#[verifier::external_body] // trait contract of KeyDerivationFunction: a function of its arguments
pub fn derive_key(k: RootChainKey, i: DHSharedKey) -> (r: (RootChainKey, MessageChainKey)) ensures r == root_kdf(k, i) { unimplemented!() }
}
#[verifier::external_body] // the associated constant INPUT
pub fn vp_kdf_input() -> (r: KdfInput) ensures r == kdf_input() { unimplemented!() }
pub open spec fn msg_kdf(k: MessageChainKey) -> (MessageChainKey, MessageKey) { msg_kdf_in(k, kdf_input()) }
impl MessageKdf {
#[verifier::external_body] // trait contract of KeyDerivationFunction: a function of its arguments
pub fn derive_key(k: MessageChainKey, i: KdfInput) -> (r: (MessageChainKey, MessageKey)) ensures r == msg_kdf_in(k, i) { unimplemented!() }
//@fn R trait ConstantInputKeyRatchet::derive_key_without_input | vis=pub
//@sub Self::ChainKey => MessageChainKey
//@sub Self::OutputKey => MessageKey
//@sub Self::INPUT => vp_kdf_input()
//@param return => (MessageChainKey, MessageKey)
//@spec
    ensures r == msg_kdf(derivation_key)
//@endfn
}
pub uninterp spec fn enc(k: MessageKey, m: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn dec(k: MessageKey, c: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] // trait contract of SymmetricalEncryptionScheme: decryption inverts encryption
pub proof fn enc_dec(k: MessageKey, m: Seq<u8>) ensures dec(k, enc(k, m)) == m {}
impl EncryptionScheme {
#[verifier::external_body] // trait contract of SymmetricalEncryptionScheme
pub fn encrypt_message(k: &MessageKey, m: &[u8]) -> (r: Vec<u8>) ensures r@ == enc(*k, m@) { unimplemented!() }
#[verifier::external_body] // trait contract of SymmetricalEncryptionScheme
pub fn decrypt_message(k: &MessageKey, m: &[u8]) -> (r: Vec<u8>) ensures r@ == dec(*k, m@) { unimplemented!() }
}
pub assume_specification<T> [ Option::<T>::replace ] (o: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(v);
// ---------- chains ----------
/// the chain key after n steps, and the n-th message key
pub open spec fn chain(k: MessageChainKey, n: nat) -> MessageChainKey decreases n { if n == 0 { k } else { msg_kdf(chain(k, (n - 1) as nat)).0 } }
pub open spec fn mkey(k: MessageChainKey, n: nat) -> MessageKey { msg_kdf(chain(k, n)).1 }
//@item R DoubleRatchetAlgorithmMessage pubfields=1
//@item R ProtocolException
//@item R DecryptionException
//@item R DoubleRatchetProtocol pubfields=1
pub type Msg = DoubleRatchetAlgorithmMessage<DHPublicKey, Vec<u8>>;
pub type Missed = Map<(DHPublicKey, usize), MessageKey>;
/// `m` with the keys of messages a..b of a chain under public key x; position a has chain key k
pub open spec fn with_missed(m: Missed, x: DHPublicKey, k: MessageChainKey, a: int, n: nat) -> Missed decreases n {
    if n == 0 { m } else { with_missed(m, x, k, a, (n - 1) as nat).insert((x, (a + n - 1) as usize), mkey(k, (n - 1) as nat)) }
}
pub enum Class { Late, Illegal, Ok(nat, nat) }
pub open spec fn classify<S: ProtocolState>(p: DoubleRatchetProtocol<S>, m: Msg) -> Class {
    if p.missed_messages@.dom().contains((m.public_key, m.message_number)) || p.retired_public_keys@.contains(m.public_key) { Class::Late }
    else if p.diffie_hellman_received_key.is_none() { Class::Ok(0, m.message_number as nat) }
    else if m.public_key == p.diffie_hellman_received_key.unwrap() {
        if m.message_number >= p.receiving_chain_length { Class::Ok((m.message_number - p.receiving_chain_length) as nat, 0) } else { Class::Late }
    } else if m.previous_chain_length >= p.receiving_chain_length { Class::Ok((m.previous_chain_length - p.receiving_chain_length) as nat, m.message_number as nat) }
    else { Class::Illegal }
}
impl DoubleRatchetProtocol<Initiator> {
//@fn R DoubleRatchetProtocol::initialize_sending | nogenerics nowhere vis=pub
//@sub R => VpRng
//@spec
    ensures
        final(rng).log().len() == old(rng).log().len() + 1, final(rng).log().drop_last() == old(rng).log(),
        r.0.diffie_hellman_generator == dh_generator,
        r.0.diffie_hellman_private_key == Some(final(rng).log().last()),
        r.0.diffie_hellman_public_key == dh_pub(dh_generator, final(rng).log().last()),
        r.0.diffie_hellman_received_key.is_none(), r.0.root_chain_key == Some(initial_root_chain_key),
        r.0.sending_chain_key.is_none(), r.0.receiving_chain_key.is_none(),
        r.0.missed_messages@ == Map::<(DHPublicKey, usize), MessageKey>::empty(), r.0.retired_public_keys@ == Set::<DHPublicKey>::empty(),
        r.1.public_key == r.0.diffie_hellman_public_key, r.1.message.is_none(),
//@at entry
    proof { key_model(); }
//@at exit
    proof { assert(rng.log().drop_last() =~= old(rng).log()); }
//@endfn
//@fn R DoubleRatchetProtocol::decrypt_first_message | nogenerics nowhere vis=pub
//@sub R => VpRng
//@spec
    requires self.diffie_hellman_private_key.is_some(), self.root_chain_key.is_some(), message.message.is_some(), message.message_number < usize::MAX
    ensures ({
        let x = message.public_key; let n = message.message_number as nat;
        let k = root_kdf(self.root_chain_key.unwrap(), dh_sh(self.diffie_hellman_private_key.unwrap(), x));
        let a = final(rng).log().last();
        let k2 = root_kdf(k.0, dh_sh(a, x));
        let q = r.0;
        &&& final(rng).log().len() == old(rng).log().len() + 1 && final(rng).log().drop_last() == old(rng).log()
        &&& r.1@ == dec(mkey(k.1, n), message.message.unwrap()@)
        &&& q.diffie_hellman_generator == self.diffie_hellman_generator
        &&& q.diffie_hellman_private_key == Some(a)
        &&& q.diffie_hellman_public_key == dh_pub(self.diffie_hellman_generator, a)
        &&& q.diffie_hellman_received_key == Some(x)
        &&& q.root_chain_key == Some(k2.0)
        &&& q.sending_chain_key == Some(k2.1)
        &&& q.receiving_chain_key == Some(chain(k.1, n + 1))
        &&& q.sending_chain_length == 0 && q.receiving_chain_length == n + 1 && q.previous_sending_chain_length == 0
        &&& q.missed_messages@ == with_missed(Map::empty(), x, k.1, 0, n)
        &&& q.retired_public_keys@ == Set::<DHPublicKey>::empty()
    })
//@at entry
    proof { key_model(); }
    let ghost vp_k = root_kdf(self.root_chain_key.unwrap(), dh_sh(self.diffie_hellman_private_key.unwrap(), message.public_key)).1;
//@loop 1
@it vp_it
    invariant message.message_number < usize::MAX, obeys_key_model::<(DHPublicKey, usize)>(),
        vp_it.seq().len() == message.message_number, forall|i: int| 0 <= i < vp_it.seq().len() ==> vp_it.seq()[i] == i,
        receiving_chain_key == chain(vp_k, (vp_it.index() + 1) as nat), message_key == mkey(vp_k, vp_it.index() as nat),
        missed_messages@ == with_missed(Map::empty(), message.public_key, vp_k, 0, vp_it.index() as nat)
//@at let missed_messages 1 before
    proof { reveal_with_fuel(chain, 3); }
//@at exit
    proof { assert(rng.log().drop_last() =~= old(rng).log()); }
//@endfn
}

/// the state after the missed messages of the current chain are accounted for
pub open spec fn missed1(p: DoubleRatchetProtocol<Established>, a: nat) -> Missed {
    if a == 0 { p.missed_messages@ } else { with_missed(p.missed_messages@, p.diffie_hellman_received_key.unwrap(), p.receiving_chain_key.unwrap(), p.receiving_chain_length as int, a) }
}
/// everything but the stored keys is as before
pub open spec fn same_rest(p: DoubleRatchetProtocol<Established>, q: DoubleRatchetProtocol<Established>) -> bool {
    &&& q.receiving_chain_key == p.receiving_chain_key && q.receiving_chain_length == p.receiving_chain_length
    &&& q.retired_public_keys@ == p.retired_public_keys@
    &&& q.diffie_hellman_received_key == p.diffie_hellman_received_key && q.diffie_hellman_generator == p.diffie_hellman_generator
    &&& q.diffie_hellman_private_key == p.diffie_hellman_private_key && q.diffie_hellman_public_key == p.diffie_hellman_public_key
    &&& q.root_chain_key == p.root_chain_key && q.sending_chain_key == p.sending_chain_key
    &&& q.sending_chain_length == p.sending_chain_length && q.previous_sending_chain_length == p.previous_sending_chain_length
}
/// the whole state is as before
pub open spec fn same_state(p: DoubleRatchetProtocol<Established>, q: DoubleRatchetProtocol<Established>) -> bool { same_rest(p, q) && q.missed_messages@ == p.missed_messages@ }
/// a message of the chain currently received from
pub open spec fn step_same(p: DoubleRatchetProtocol<Established>, a: nat, q: DoubleRatchetProtocol<Established>) -> bool {
    let k = p.receiving_chain_key.unwrap();
    &&& q.receiving_chain_key == Some(chain(k, a + 1))
    &&& q.receiving_chain_length == p.receiving_chain_length + a + 1
    &&& q.missed_messages@ == missed1(p, a)
    &&& q.retired_public_keys@ == p.retired_public_keys@
    &&& q.diffie_hellman_received_key == p.diffie_hellman_received_key && q.diffie_hellman_generator == p.diffie_hellman_generator
    &&& q.diffie_hellman_private_key == p.diffie_hellman_private_key && q.diffie_hellman_public_key == p.diffie_hellman_public_key
    &&& q.root_chain_key == p.root_chain_key && q.sending_chain_key == p.sending_chain_key
    &&& q.sending_chain_length == p.sending_chain_length && q.previous_sending_chain_length == p.previous_sending_chain_length
}
pub open spec fn new_keys(p: DoubleRatchetProtocol<Established>, x: DHPublicKey) -> (RootChainKey, MessageChainKey) {
    root_kdf(p.root_chain_key.unwrap(), dh_sh(p.diffie_hellman_private_key.unwrap(), x))
}
/// a message of a new chain: ratchet step with the fresh private key s
pub open spec fn step_new(p: DoubleRatchetProtocol<Established>, a: nat, n: nat, x: DHPublicKey, s: DHPrivateKey, q: DoubleRatchetProtocol<Established>) -> bool {
    let k = new_keys(p, x);
    let k2 = root_kdf(k.0, dh_sh(s, x));
    &&& q.receiving_chain_key == Some(chain(k.1, n + 1))
    &&& q.receiving_chain_length == n + 1
    &&& q.missed_messages@ == with_missed(missed1(p, a), x, k.1, 0, n)
    &&& q.retired_public_keys@ == (if p.diffie_hellman_received_key.is_some() { p.retired_public_keys@.insert(p.diffie_hellman_received_key.unwrap()) } else { p.retired_public_keys@ })
    &&& q.diffie_hellman_received_key == Some(x) && q.diffie_hellman_generator == p.diffie_hellman_generator
    &&& q.diffie_hellman_private_key == Some(s) && q.diffie_hellman_public_key == dh_pub(p.diffie_hellman_generator, s)
    &&& q.root_chain_key == Some(k2.0) && q.sending_chain_key == Some(k2.1)
    &&& q.sending_chain_length == 0 && q.previous_sending_chain_length == p.sending_chain_length
}
pub open spec fn is_new(p: DoubleRatchetProtocol<Established>, x: DHPublicKey) -> bool { p.diffie_hellman_received_key != Some(x) }
impl DoubleRatchetProtocol<Established> {
//@fn R DoubleRatchetProtocol::initialize_receiving | nogenerics nowhere vis=pub
//@sub R => VpRng
//@spec
    ensures ({
        let a = final(rng).log().last();
        let k = root_kdf(initial_root_chain_key, dh_sh(a, received_dh_public_key));
        &&& final(rng).log().len() == old(rng).log().len() + 1 && final(rng).log().drop_last() == old(rng).log()
        &&& r.diffie_hellman_generator == dh_generator
        &&& r.diffie_hellman_private_key == Some(a)
        &&& r.diffie_hellman_public_key == dh_pub(dh_generator, a)
        &&& r.diffie_hellman_received_key == Some(received_dh_public_key)
        &&& r.root_chain_key == Some(k.0)
        &&& r.sending_chain_key == Some(k.1)
        &&& r.receiving_chain_key.is_none()
        &&& r.sending_chain_length == 0 && r.receiving_chain_length == 0 && r.previous_sending_chain_length == 0
        &&& r.missed_messages@ == Map::<(DHPublicKey, usize), MessageKey>::empty()
        &&& r.retired_public_keys@ == Set::<DHPublicKey>::empty()
    })
//@at entry
    proof { key_model(); }
//@at exit
    proof { assert(rng.log().drop_last() =~= old(rng).log()); }
//@endfn
//@fn R DoubleRatchetProtocol::encrypt_message | vis=pub
//@spec
    requires old(self).sending_chain_key.is_some(), old(self).sending_chain_length < usize::MAX
    ensures ({
        let k = old(self).sending_chain_key.unwrap();
        &&& r.public_key == old(self).diffie_hellman_public_key
        &&& r.message_number == old(self).sending_chain_length
        &&& r.previous_chain_length == old(self).previous_sending_chain_length
        &&& r.message.is_some() && r.message.unwrap()@ == enc(mkey(k, 0), message@)
        &&& *final(self) == DoubleRatchetProtocol::<Established> { sending_chain_key: Some(chain(k, 1)), sending_chain_length: (old(self).sending_chain_length + 1) as usize, ..*old(self) }
    })
//@at entry
    proof { reveal_with_fuel(chain, 3); }
//@endfn
//@fn R DoubleRatchetProtocol::decrypt_message | nogenerics nowhere vis=pub
//@sub R => VpRng
//@spec
    requires message.message.is_some(), message.message_number < usize::MAX, message.previous_chain_length < usize::MAX,
        old(self).receiving_chain_length < usize::MAX,
        old(self).diffie_hellman_private_key.is_some(), old(self).root_chain_key.is_some(),
        old(self).receiving_chain_key.is_none() ==> classify(*old(self), message) == Class::Late || classify(*old(self), message) == Class::Illegal
            || (is_new(*old(self), message.public_key) && classify(*old(self), message)->Ok_0 == 0)
    ensures
        final(rng).log() == old(rng).log() || (final(rng).log().len() == old(rng).log().len() + 1 && final(rng).log().drop_last() == old(rng).log()),
        match classify(*old(self), message) {
            Class::Illegal => r is Err && r->Err_0 is InvalidMessageHeader && same_state(*old(self), *final(self)) && final(rng).log() == old(rng).log(),
            Class::Late => ({
                let key = (message.public_key, message.message_number);
                if old(self).missed_messages@.dom().contains(key) {
                    &&& r is Err && r->Err_0 is OutOfOrderMessage
                    &&& r->Err_0->decrypted_message@ == dec(old(self).missed_messages@[key], message.message.unwrap()@)
                    &&& final(self).missed_messages@ == old(self).missed_messages@.remove(key)
                    &&& same_rest(*old(self), *final(self))
                    &&& final(rng).log() == old(rng).log()
                } else {
                    r is Err && r->Err_0 is UnknownMessageHeader && same_state(*old(self), *final(self)) && final(rng).log() == old(rng).log()
                }
            }),
            Class::Ok(a, n) => r is Ok && if is_new(*old(self), message.public_key) {
                &&& final(rng).log().len() == old(rng).log().len() + 1
                &&& step_new(*old(self), a, n, message.public_key, final(rng).log().last(), *final(self))
                &&& r->Ok_0@ == dec(mkey(new_keys(*old(self), message.public_key).1, n), message.message.unwrap()@)
            } else {
                &&& final(rng).log() == old(rng).log()
                &&& step_same(*old(self), a, *final(self))
                &&& r->Ok_0@ == dec(mkey(old(self).receiving_chain_key.unwrap(), a), message.message.unwrap()@)
            },
        }
//@at entry
    proof { key_model(); reveal_with_fuel(chain, 3); }
    let ghost vp_p = *self;
    let ghost vp_m = message;
    let ghost vp_x = message.public_key;
    proof { let vp_e = (vp_x, vp_m.message_number); if !vp_p.missed_messages@.dom().contains(vp_e) { assert(vp_p.missed_messages@.remove(vp_e) =~= vp_p.missed_messages@); } }
//@loop 1
@it vp_it
    invariant obeys_key_model::<(DHPublicKey, usize)>(), vp_p == *old(self), classify(vp_p, vp_m) is Ok, 
        current_chain_missed_messages == classify(vp_p, vp_m)->Ok_0, next_chain_missed_messages == classify(vp_p, vp_m)->Ok_1,
        vp_it.seq().len() == current_chain_missed_messages,
        vp_p.receiving_chain_length + classify(vp_p, vp_m)->Ok_0 < usize::MAX,
        classify(vp_p, vp_m)->Ok_0 > 0 ==> vp_p.receiving_chain_key.is_some() && vp_p.diffie_hellman_received_key.is_some(),
        ({ let a = classify(vp_p, vp_m)->Ok_0; let i = vp_it.index() as nat;
        &&& self.receiving_chain_length == vp_p.receiving_chain_length + i
        &&& self.receiving_chain_key == (if i == 0 { vp_p.receiving_chain_key } else { Some(chain(vp_p.receiving_chain_key.unwrap(), i)) })
        &&& self.missed_messages@ == missed1(vp_p, i)
        &&& self.retired_public_keys@ == vp_p.retired_public_keys@
        &&& self.diffie_hellman_received_key == vp_p.diffie_hellman_received_key && self.diffie_hellman_generator == vp_p.diffie_hellman_generator
        &&& self.diffie_hellman_private_key == vp_p.diffie_hellman_private_key && self.diffie_hellman_public_key == vp_p.diffie_hellman_public_key
        &&& self.root_chain_key == vp_p.root_chain_key && self.sending_chain_key == vp_p.sending_chain_key
        &&& self.sending_chain_length == vp_p.sending_chain_length && self.previous_sending_chain_length == vp_p.previous_sending_chain_length }),
//@at loop 1 start
    proof { reveal_with_fuel(chain, 3); reveal_with_fuel(with_missed, 3); }
//@at loop 1 after
    let ghost vp_q = *self;
    let ghost vp_k = new_keys(vp_p, vp_x).1;
    let ghost vp_n = classify(vp_p, vp_m)->Ok_1;
    let ghost vp_a = classify(vp_p, vp_m)->Ok_0;
//@loop 2
@it vp_it
    invariant obeys_key_model::<(DHPublicKey, usize)>(), next_chain_missed_messages == vp_n, vp_it.seq().len() == vp_n, vp_n < usize::MAX, message.public_key == vp_x,
        ({ let i = vp_it.index() as nat;
        &&& self.receiving_chain_length == i
        &&& receiving_chain_key == chain(vp_k, i)
        &&& self.missed_messages@ == with_missed(missed1(vp_p, vp_a), vp_x, vp_k, 0, i)
        &&& self.retired_public_keys@ == vp_p.retired_public_keys@
        &&& self.diffie_hellman_received_key == vp_p.diffie_hellman_received_key && self.diffie_hellman_generator == vp_p.diffie_hellman_generator
        &&& self.sending_chain_length == vp_p.sending_chain_length }),
//@at loop 2 start
    proof { reveal_with_fuel(chain, 3); reveal_with_fuel(with_missed, 3); }
//@at exit
    proof { if rng.log().len() > old(rng).log().len() { assert(rng.log().drop_last() =~= old(rng).log()); } }
//@endfn
}
//@fn R detect_missing_messages | keepgen=State
//@attr
//@spec
    ensures match classify(*protocol, *message) {
        Class::Ok(a, n) => r is Ok && r->Ok_0.0 == a && r->Ok_0.1 == n,
        Class::Late => r is Err && r->Err_0 is OutOfOrderMessage && r->Err_0->public_key == message.public_key && r->Err_0->message_number == message.message_number,
        Class::Illegal => r is Err && r->Err_0 is IllegalMessageHeader,
    }
//@at entry
    proof { key_model(); }
//@endfn
