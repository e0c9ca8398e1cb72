//! R01..R04: the double ratchet, run over a small concrete group and hash-based key derivation;
//! the oracle is the history itself (which message was sent, which was delivered).
#![allow(clippy::all)]
use harness::run::*;
use jester_double_ratchet::state::{Established, Initiator};
use jester_double_ratchet::*;
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_encryption::SymmetricalEncryptionScheme;
use rand::{CryptoRng, RngCore};
use std::cell::RefCell;
use std::collections::HashSet;

const P: u64 = (1 << 61) - 1;
fn mulm(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % P as u128) as u64
}
fn powm(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, b);
        }
        b = mulm(b, b);
        e >>= 1;
    }
    r
}
fn mix(a: u64, b: u64, tag: u64) -> u64 {
    let mut z = a ^ b.rotate_left(23) ^ tag.wrapping_mul(0x9E3779B97F4A7C15);
    for _ in 0..3 {
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        z = z.wrapping_add(b).wrapping_add(tag);
    }
    z
}
struct Dh;
#[derive(Clone, PartialEq, Eq, Hash, Debug, Copy)]
struct Pub(u64);
struct Priv(u64);
struct Shared(u64);
impl DiffieHellmanKeyExchangeScheme for Dh {
    type PublicKey = Pub;
    type PrivateKey = Priv;
    type SharedKey = Shared;
    fn generate_asymmetrical_key_pair<R: RngCore + CryptoRng>(rng: &mut R, g: &Pub) -> (Priv, Pub) {
        let a = rng.next_u64() % (P - 2) + 1;
        (Priv(a), Pub(powm(g.0, a)))
    }
    fn generate_shared_secret(a: &Priv, x: &Pub) -> Shared {
        Shared(powm(x.0, a.0))
    }
}
struct Rk;
impl KeyDerivationFunction for Rk {
    type ChainKey = [u64; 2];
    type Input = Shared;
    type OutputKey = [u64; 3];
    fn derive_key(c: [u64; 2], i: Shared) -> ([u64; 2], [u64; 3]) {
        let s = mix(c[0], i.0, 1) ^ mix(c[1], i.0, 2).rotate_left(17);
        ([mix(s, c[0], 3), mix(s, c[1], 4)], [mix(s, c[0], 5), mix(s, c[1], 6), mix(s, i.0, 7)])
    }
}
struct Mk;
impl KeyDerivationFunction for Mk {
    type ChainKey = [u64; 3];
    type Input = u64;
    type OutputKey = u128;
    fn derive_key(c: [u64; 3], i: u64) -> ([u64; 3], u128) {
        let s = mix(c[0], c[1], i) ^ mix(c[2], i, 8).rotate_left(31);
        ([mix(s, c[0], 9), mix(s, c[1], 10), mix(s, c[2], 11)], ((mix(s, c[1], 12) as u128) << 64) | mix(s, c[2], 13) as u128)
    }
}
impl ConstantInputKeyRatchet for Mk {
    const INPUT: u64 = 0x5eed;
}
thread_local! { static USED: RefCell<Vec<u128>> = RefCell::new(vec![]); }
struct Enc;
fn stream(k: u128, m: &[u8]) -> Vec<u8> {
    m.iter().enumerate().map(|(i, b)| b ^ (mix(k as u64, (k >> 64) as u64, i as u64) as u8)).collect()
}
impl SymmetricalEncryptionScheme for Enc {
    type Key = u128;
    fn generate_key<R: RngCore + CryptoRng>(r: &mut R) -> u128 {
        r.next_u64() as u128
    }
    fn encrypt_message(k: &u128, m: &[u8]) -> Vec<u8> {
        USED.with(|u| u.borrow_mut().push(*k));
        let mut c = k.to_le_bytes().to_vec();
        c.extend(stream(*k, m));
        c
    }
    fn decrypt_message(k: &u128, c: &[u8]) -> Vec<u8> {
        if c.len() < 16 || c[..16] != k.to_le_bytes()[..] {
            // an authenticating scheme rejects; here the failure is visible to the oracle
            return b"\xff\xffdecrypted with a wrong key".to_vec();
        }
        stream(*k, &c[16..])
    }
}
struct R0(Rng);
impl RngCore for R0 {
    fn next_u32(&mut self) -> u32 {
        self.0.u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        let b = self.0.bytes(d.len());
        d.copy_from_slice(&b)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for R0 {}
type Drp<S> = DoubleRatchetProtocol<Dh, Enc, Rk, Mk, Pub, Priv, Shared, [u64; 2], [u64; 3], u128, S>;
type Msg = DoubleRatchetAlgorithmMessage<Pub, Vec<u8>>;
fn copy(m: &Msg) -> Msg {
    let (k, n, p, c) = m.verif_parts();
    Msg::verif_new(*k, n, p, c.clone())
}

struct Sent {
    msg: Msg,
    text: Vec<u8>,
    chain: usize, // even: the responder's, odd: the initiator's
    num: usize,
    done: bool,
}
enum Party {
    Init(Drp<Initiator>),
    Est(Drp<Established>),
    Gone,
}
/// the pair of parties and the history
struct World {
    rng: R0,
    gen: Rng,
    party: [Party; 2], // 0: initiator, 1: responder
    level: [usize; 2],  // index of the chain the party sends on (initiator: usize::MAX before it can send)
    sent: Vec<Sent>,
    rlen: [usize; 2], // received so far in the current receiving chain
    pubs: Vec<Pub>,   // public keys of the chains, as seen in headers
    texts: bool,
    prop: String,
    log: String,
    counts: Vec<usize>,
    used: HashSet<u128>,
}
const NONE: usize = usize::MAX;
impl World {
    fn new(rng: &mut Rng, prop: &str) -> World {
        let mut r = R0(Rng::new(rng.u64()));
        let g = Pub(37);
        let root = [rng.u64(), rng.u64()];
        let (a, m) = Drp::<Initiator>::initialize_sending(&mut r, g, root);
        let (k, _, _, _) = m.verif_parts();
        let b = Drp::<Established>::initialize_receiving(&mut r, g, *k, root);
        let init_key = *k;
        World { rng: r, gen: Rng::new(rng.u64()), party: [Party::Init(a), Party::Est(b)], level: [NONE, 0], sent: vec![], rlen: [0, 0], pubs: vec![init_key], texts: rng.bool(), prop: prop.into(), log: String::new(), counts: vec![], used: HashSet::new() }
    }
    fn chain_len(&self, c: usize) -> usize {
        self.counts.get(c).copied().unwrap_or(0)
    }
    fn can_send(&self, p: usize) -> bool {
        matches!(self.party[p], Party::Est(_))
    }
    fn send(&mut self, p: usize) -> Result<(), String> {
        let chain = self.level[p];
        let text = if self.texts {
            match self.gen.below(12) {
                // long, or the same once more
                0 => { let n = if self.gen.below(40) == 0 { *self.gen.pick(&[8192, 16384, 65535, 65536, 65537, 70000, 131073, 1 << 20]) } else { self.gen.range(0, 5000) }; self.gen.bytes(n) }
                1 if !self.sent.is_empty() => self.sent[self.gen.range(0, self.sent.len() - 1)].text.clone(),
                2 => vec![0; self.gen.range(0, 40)],
                _ => { let n = self.gen.range(0, 40); self.gen.bytes(n) }
            }
        } else { vec![self.sent.len() as u8] };
        let nb = USED.with(|u| u.borrow().len());
        let num = self.chain_len(chain);
        let msg = match &mut self.party[p] {
            Party::Est(x) => x.encrypt_message(&text),
            _ => unreachable!(),
        };
        if self.sent.len() < 2000 {
            self.log += &format!(" send({}#{})", if p == 0 { 'I' } else { 'R' }, self.sent.len());
        }
        if self.prop == "R04" {
            let (k, n, prev, c) = msg.verif_parts();
            if n != num {
                return Err(format!("message {} of its chain carries number {} after:{}", num, n, self.log));
            }
            let want_prev = if chain >= 2 { self.chain_len(chain - 2) } else { 0 };
            if prev != want_prev {
                return Err(format!("header carries previous chain length {} instead of {} after:{}", prev, want_prev, self.log));
            }
            // chain c has public key pubs[c + 1]
            if self.pubs.len() == chain + 1 {
                if self.pubs.contains(k) {
                    return Err(format!("a new chain reuses the public key of an earlier one after:{}", self.log));
                }
                self.pubs.push(*k);
            } else if self.pubs.get(chain + 1).map_or(false, |x| x != k) {
                return Err(format!("the public key changed within a chain after:{}", self.log));
            }
            let used: Vec<u128> = USED.with(|u| u.borrow()[nb..].to_vec());
            if used.len() != 1 {
                return Err(format!("{} encryptions for one message", used.len()));
            }
            if !self.used.insert(used[0]) {
                return Err(format!("a message key is used for two messages; history:{}", self.log));
            }
            if c.as_ref().map(|c| c[..] != [&used[0].to_le_bytes()[..], &stream(used[0], &text)[..]].concat()[..]).unwrap_or(true) {
                return Err("the message does not carry its encryption".into());
            }
        }
        if self.counts.len() <= chain {
            self.counts.resize(chain + 1, 0);
        }
        self.counts[chain] += 1;
        self.sent.push(Sent { msg, text, chain, num, done: false });
        Ok(())
    }
    /// index of messages to p that have not been delivered
    fn pending(&self, p: usize) -> Vec<usize> {
        (0..self.sent.len()).filter(|&i| self.sent[i].chain % 2 != (p + 1) % 2 && !self.sent[i].done).collect()
    }
    fn delivered(&self, p: usize) -> Vec<usize> {
        (0..self.sent.len()).filter(|&i| self.sent[i].chain % 2 != (p + 1) % 2 && self.sent[i].done).collect()
    }
    fn starts_chain(&self, p: usize, i: usize) -> bool {
        self.level[p] != NONE && self.sent[i].chain == self.level[p] + 1
    }
    fn deliver(&mut self, p: usize, i: usize) -> Result<(), String> {
        let (chain, num, again) = (self.sent[i].chain, self.sent[i].num, self.sent[i].done);
        let m = copy(&self.sent[i].msg);
        let who = if p == 0 { 'I' } else { 'R' };
        self.log += &format!(" {}({}#{} = chain {} number {})", if again { "replay" } else { "deliver" }, who, i, chain, num);
        let starts = self.starts_chain(p, i);
        let out: Result<(Vec<u8>, bool), &str> = match std::mem::replace(&mut self.party[p], Party::Gone) {
            Party::Init(x) => {
                let (y, t) = x.decrypt_first_message(&mut self.rng, m);
                self.party[p] = Party::Est(y);
                self.level[p] = 1;
                self.rlen[p] = num + 1;
                Ok((t, false))
            }
            Party::Est(mut x) => {
                let r = x.decrypt_message(&mut self.rng, m);
                self.party[p] = Party::Est(x);
                match r {
                    Ok(t) => Ok((t, false)),
                    Err(DecryptionException::OutOfOrderMessage { decrypted_message }) => Ok((decrypted_message, true)),
                    Err(DecryptionException::InvalidMessageHeader {}) => Err("InvalidMessageHeader"),
                    Err(DecryptionException::UnknownMessageHeader {}) => Err("UnknownMessageHeader"),
                }
            }
            Party::Gone => unreachable!(),
        };
        if again {
            // a message that was decrypted once
            if let Ok((t, _)) = out {
                return Err(format!("a message that was decrypted already yields {} again; history:{}", hex(&t), self.log));
            }
            return Ok(());
        }
        self.sent[i].done = true;
        if starts {
            self.level[p] += 2;
            self.rlen[p] = num + 1;
        } else if self.level[p] != NONE && chain + 1 == self.level[p] {
            self.rlen[p] = self.rlen[p].max(num + 1);
        }
        match out {
            Ok((t, _)) if t == self.sent[i].text => Ok(()),
            Ok((t, _)) => Err(format!("delivered message decrypts to {} instead of {}; history:{}", hex(&t), hex(&self.sent[i].text), self.log)),
            Err(e) => Err(format!("delivered message is rejected with {}; history:{}", e, self.log)),
        }
    }
    /// a header that starts a new chain but claims fewer messages in the one before than were received
    fn contradict(&mut self, p: usize, i: usize) -> Result<(), String> {
        let (k, n, _, c) = self.sent[i].msg.verif_parts();
        let lie = self.gen.below(self.rlen[p] as u64) as usize;
        let m = Msg::verif_new(*k, n, lie, c.clone());
        self.log += &format!(" contradict({}#{} claims {})", p, i, lie);
        if let Party::Est(x) = &mut self.party[p] {
            match x.decrypt_message(&mut self.rng, m) {
                Err(DecryptionException::InvalidMessageHeader {}) => {}
                Err(DecryptionException::UnknownMessageHeader {}) => {}
                Err(DecryptionException::OutOfOrderMessage { .. }) => return Err(format!("a contradictory header yields a plaintext; history:{}", self.log)),
                Ok(_) => return Err(format!("a contradictory header is accepted; history:{}", self.log)),
            }
        }
        Ok(())
    }
    fn act(&mut self, op: u8) -> Result<bool, String> {
        let p = (op % 2) as usize;
        match op / 2 {
            0 => {
                if !self.can_send(p) {
                    return Ok(false);
                }
                self.send(p)?;
            }
            1 | 2 | 3 => {
                let v = self.pending(p);
                if v.is_empty() {
                    return Ok(false);
                }
                let i = match op / 2 {
                    1 => v[0],
                    2 => v[v.len() - 1],
                    _ => v[self.gen.below(v.len() as u64) as usize],
                };
                if op / 2 == 2 && v.len() == 1 {
                    return Ok(false);
                }
                self.deliver(p, i)?;
            }
            4 | 6 => {
                let v = self.delivered(p);
                if v.is_empty() || matches!(self.party[p], Party::Init(_)) {
                    return Ok(false);
                }
                let i = if op / 2 == 4 { v[v.len() - 1] } else { v[self.gen.below(v.len() as u64) as usize] };
                self.deliver(p, i)?;
            }
            _ => {
                if self.rlen[p] == 0 || self.level[p] == NONE {
                    return Ok(false);
                }
                let v: Vec<usize> = self.pending(p).into_iter().filter(|&i| self.starts_chain(p, i)).collect();
                if v.is_empty() {
                    return Ok(false);
                }
                let i = v[self.gen.below(v.len() as u64) as usize];
                self.contradict(p, i)?;
            }
        }
        Ok(true)
    }
    /// everything still undelivered arrives, and both sides can still talk
    fn wrap_up(&mut self) -> Result<(), String> {
        for round in 0..2 {
            for p in [0usize, 1] {
                let mut v = self.pending(p);
                if round == 0 && self.gen.bool() {
                    v.reverse();
                }
                for i in v {
                    self.deliver(p, i)?;
                }
            }
            for p in [1usize, 0] {
                if self.can_send(p) {
                    self.send(p)?;
                    let v = self.pending(1 - p);
                    for i in v {
                        self.deliver(1 - p, i)?;
                    }
                }
            }
        }
        Ok(())
    }
}
/// operations of a property: R01 deliveries in order of sending and the newest first; R02 any order and replays; R03 also contradictory headers
fn ops(prop: &str) -> Vec<u8> {
    match prop {
        "R01" => vec![0, 1, 2, 3, 4, 5],
        "R02" => vec![0, 1, 2, 3, 4, 5, 6, 7],
        "R03" => vec![0, 1, 2, 3, 8, 9, 10, 11, 4, 5],
        _ => vec![0, 1, 2, 3, 4, 5],
    }
}
fn exhaustive(prop: &str, seed: u64, prefix: &[u8], depth: usize) -> Result<(), String> {
    let o = ops(prop);
    let mut idx = vec![0usize; depth];
    loop {
        let mut w = World::new(&mut Rng::new(seed), prop);
        USED.with(|u| u.borrow_mut().clear());
        let mut ok = true;
        for &x in prefix {
            ok = ok && w.act(x)?;
        }
        if !ok {
            return Ok(());
        }
        let mut bad = None;
        for (k, &i) in idx.iter().enumerate() {
            if !w.act(o[i])? {
                bad = Some(k);
                break;
            }
        }
        if bad.is_none() {
            w.wrap_up()?;
        }
        let mut k = bad.unwrap_or(depth - 1);
        for x in idx[k + 1..].iter_mut() {
            *x = 0;
        }
        loop {
            idx[k] += 1;
            if idx[k] < o.len() {
                break;
            }
            idx[k] = 0;
            if k == 0 {
                return Ok(());
            }
            k -= 1;
        }
    }
}
fn random(prop: &str, rng: &mut Rng, n: usize) -> Result<(), String> {
    let mut w = World::new(rng, prop);
    USED.with(|u| u.borrow_mut().clear());
    let mut o = ops(prop);
    if prop == "R02" || prop == "R03" || prop == "R01" {
        o.extend([6, 7]);
    }
    if prop == "R02" || prop == "R03" {
        o.extend([8, 9, 12, 13]);
    }
    // bursts: some operations are favoured
    let fav = o[rng.below(o.len() as u64) as usize];
    let send = rng.below(3);
    for _ in 0..n {
        let op = if rng.below(4) == 0 { fav } else if rng.below(4) < send { (rng.below(2)) as u8 } else { *rng.pick(&o) };
        w.act(op)?;
    }
    w.wrap_up()
}
/// long gaps: n messages of one chain are sent, only some arrive in time, the others after a direction change
fn burst(prop: &str, rng: &mut Rng, n: usize, shape: usize) -> Result<(), String> {
    let mut w = World::new(rng, prop);
    USED.with(|u| u.borrow_mut().clear());
    w.send(1)?;
    w.deliver(0, 0)?;
    let me = shape % 2;
    if me == 0 {
        w.send(0)?;
        w.deliver(1, 1)?;
    }
    // the peer has (shape / 2 % 3) messages of the chain before the gap
    let first = w.sent.len();
    for _ in 0..n {
        w.send(me)?;
    }
    for k in 0..shape / 2 % 3 {
        w.deliver(1 - me, first + k)?;
    }
    if shape / 6 % 2 == 0 {
        w.deliver(1 - me, first + n - 1)?;
    } else {
        w.deliver(1 - me, first + shape / 2 % 3)?;
    }
    // two direction changes: the gap now ends a chain
    for p in [1 - me, me] {
        w.send(p)?;
        let i = w.sent.len() - 1;
        w.deliver(1 - p, i)?;
    }
    let rest: Vec<usize> = w.pending(1 - me);
    for i in [rest.first(), rest.last(), rest.get(rest.len() / 2)].into_iter().flatten() {
        if !w.sent[*i].done {
            w.deliver(1 - me, *i)?;
        }
        if prop != "R01" && prop != "R04" {
            w.deliver(1 - me, *i)?;
        }
    }
    let more = w.pending(1 - me);
    for k in 0..40.min(more.len()) {
        let j = more[k * more.len() / 40.min(more.len())];
        if !w.sent[j].done {
            w.deliver(1 - me, j)?;
        }
    }
    for p in [1 - me, me, me] {
        w.send(p)?;
        let i = w.sent.len() - 1;
        w.deliver(1 - p, i)?;
    }
    Ok(())
}
/// a conversation of many turns; messages of old chains arrive, or arrive again, after any number of direction changes
fn long(prop: &str, rng: &mut Rng, turns: usize) -> Result<(), String> {
    let mut w = World::new(rng, prop);
    USED.with(|u| u.borrow_mut().clear());
    let again = prop != "R01" && prop != "R04";
    w.send(1)?;
    w.deliver(0, 0)?;
    for t in 0..turns {
        let p = t % 2;
        let k = rng.range(1, 3);
        let first = w.sent.len();
        for _ in 0..k {
            w.send(p)?;
        }
        let all = rng.below(6) != 0;
        for i in first..first + k {
            if all || i == first + k - 1 {
                w.deliver(1 - p, i)?;
            }
        }
        if rng.below(12) == 0 {
            let old = w.pending(p);
            if !old.is_empty() {
                let i = *rng.pick(&old);
                w.deliver(p, i)?;
                if again {
                    w.deliver(p, i)?;
                }
            }
        }
        if again && rng.below(6) == 0 {
            let old = w.delivered(p);
            if !old.is_empty() {
                let i = *rng.pick(&old);
                w.deliver(p, i)?;
            }
        }
    }
    for p in 0..2 {
        for i in w.pending(p) {
            w.deliver(p, i)?;
        }
        if again {
            let old = w.delivered(p);
            for j in 0..60.min(old.len()) {
                let i = old[j * old.len() / 60.min(old.len())];
                w.deliver(p, i)?;
            }
        }
    }
    for p in [turns % 2, (turns + 1) % 2] {
        w.send(p)?;
        let i = w.sent.len() - 1;
        w.deliver(1 - p, i)?;
    }
    Ok(())
}
fn dispatch(r: &mut Runner) -> bool {
    let p = r.property.clone();
    if !["R01", "R02", "R03", "R04"].contains(&p.as_str()) {
        return false;
    }
    let seed = 7;
    let (pre, depth) = if p == "R03" || p == "R02" { (vec![1u8], 8) } else { (vec![1u8], 9) };
    let depth = if r.deep { depth + 1 } else { depth };
    let o = ops(&p);
    for &a in &o {
        for &b in &o {
            let mut v = pre.clone();
            v.push(a);
            v.push(b);
            r.case_limit(&format!("exhaustive/{}-{}", a, b), 600, |_| exhaustive(&p, seed, &v, depth - 2));
            if r.stop() {
                return true;
            }
        }
    }
    for n in dict_sizes(3, 5000) {
        for shape in 0..12 {
            if n < 600 || shape % 5 == 0 {
                r.case_limit(&format!("named-burst/{}-{}", n, shape), 600, |g| burst(&p, g, n, shape));
            }
        }
        if n <= 300 {
            r.case_limit(&format!("named-turns/{}", n), 600, |g| long(&p, g, n));
        }
        if r.stop() {
            return true;
        }
    }
    for n in [20usize, 140, 300, 1100, 66000] {
        for shape in 0..12 {
            if n > 2000 && shape % 5 != 0 {
                continue;
            }
            r.case_limit(&format!("burst/{}-{}", n, shape), 600, |g| burst(&p, g, n, shape));
            if r.stop() {
                return true;
            }
        }
    }
    for (k, n) in [20usize, 40, 80, 140, 300, 600, 1200].iter().enumerate() {
        r.case_limit(&format!("turns/{}-{}", n, k), 600, |g| long(&p, g, *n));
        if r.stop() {
            return true;
        }
    }
    let mut i = 0;
    while r.time_left() && i < if r.deep { 200000 } else { 4000 } {
        let n = [10, 25, 60, 150][i % 4];
        r.case(&format!("random/{}-{}", n, i), |g| random(&p, g, n));
        i += 1;
    }
    true
}
fn main() {
    harness::main_with(dispatch)
}
