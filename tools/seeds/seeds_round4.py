# Fourth round: states in progress, alignment, boundaries of the admissible range, values that happen to be equal, contexts of one process.
import runpy, os, hashlib, hmac as _hm
here = os.path.dirname(os.path.abspath(__file__))
r2 = runpy.run_path(here + '/seeds_round2.py')
h, H, M, D, E, MP, MR, SP, GEN, SH, BV, INV, OR, RN, P, rs = (r2[k] for k in ('h', 'H', 'M', 'D', 'E', 'MP', 'MR', 'SP', 'GEN', 'SH', 'BV', 'INV', 'OR', 'RN', 'P', 'rs'))
HM, KD = 'jester_hashes/src/hmac.rs', 'jester_hashes/src/kdf.rs'
DH, RSA = 'jester_encryption/src/diffie_hellman.rs', 'jester_encryption/src/rsa.rs'
B2S, B2B = 'jester_hashes/src/blake/blake2s.rs', 'jester_hashes/src/blake/blake2b.rs'
PRE, MSG = h['PRE'], h['MSG']
def md5(b): return hashlib.md5(b).hexdigest()
def off(ty, mod, fn, lens):
    s = PRE + MSG + f'use jester_hashes::{mod}::{ty};\nfn main() {{\n let v = msg(5000);\n'
    m = bytes((i * 7 + 3) % 251 for i in range(5000))
    for o in range(0, 9):
        for n in lens: s += f'    check("offset {o} len {n}", {ty}::digest_message(&(), &v[{o}..{o+n}]).raw(), "{fn(m[o:o+n]).hexdigest()}");\n'
    return s + '}\n'
KDM = '''use jester_hashes::*; use jester_hashes::kdf::hkdf_derive_key; use jester_hashes::md5::MD5Hash; use jester_hashes::sha1::SHA1Hash;
'''
SEEDS = [
 dict(id='H02-aligned-words', prop='H02', file=h['S'], old='        // digest full blocks\n', new='''        // long aligned messages are digested as they lie in memory, the others block by block
        let start = input_data_offset;
        let end = input_data_offset + message_blocks_count * BLOCK_LENGTH_BYTES;
        let misplaced = input[start..end].as_ptr().align_offset(8);
        if message_blocks_count >= 3 && misplaced % 8 == 7 {
            for i in 0..message_blocks_count {
                let mut block = [0_u8; BLOCK_LENGTH_BYTES];
                block[misplaced..].copy_from_slice(&input[start + i * BLOCK_LENGTH_BYTES + misplaced..start + (i + 1) * BLOCK_LENGTH_BYTES]);
                round_function(hash, &block);
            }
            hash.remaining_data = input[end..].to_vec();
            return;
        }

        // digest full blocks
''', needs='a message of at least three blocks that starts one byte behind an eight byte boundary in memory', breaks='the first bytes of each block are ignored',
   main=off('SHA1Hash', 'sha1', hashlib.sha1, [10, 64, 200, 1000]), deps=H),
 dict(id='H05-shared-tail', prop='H05', edits=[(h['M'], '                hash.remaining_data.append(&mut input.to_vec());\n                return;\n', '''                hash.remaining_data.append(&mut input.to_vec());
                // keep the allocation of the longest tail for the next message
                SPARE.with(|spare| {
                    let mut spare = spare.borrow_mut();
                    if hash.remaining_data.len() == BLOCK_LENGTH_BYTES - 1 {
                        let complete = hash.remaining_data.clone();
                        if spare.len() == complete.len() && spare[..8] == complete[..8] {
                            hash.remaining_data = spare.clone();
                        }
                        *spare = complete;
                    }
                });
                return;
'''), (h['M'], 'impl HashFunction for MD5Hash {', '''thread_local! {
    static SPARE: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(vec![]);
}

impl HashFunction for MD5Hash {''')], needs='two messages of one thread, each fed in pieces that leave exactly 63 pending bytes, that start with the same eight bytes', breaks='the second is finished with the tail of the first',
   main=PRE+MSG+'''use jester_hashes::md5::MD5Hash;
fn go(m: &[u8], p: &[usize]) { let mut s = MD5Hash::init_hash(&()); let mut at = 0; for n in p { MD5Hash::update_hash(&mut s, &(), &m[at..at + n]); at += n; } let one = hex(&MD5Hash::digest_message(&(), m).raw()); check("pieces", MD5Hash::finish_hash(&mut s, &()).raw(), &one); }
fn main() { let a = msg(63); let mut b = msg(63); b[60] = 1; go(&a, &[30, 33]); go(&b, &[30, 33]); go(&b, &[10, 53]); go(&a, &[62, 1]); }
''', deps=H),
 dict(id='H07-last-block', prop='H07', file=KD, old='    for i in 1..=partials {\n', new='    assert!(partials < 255, "the requested key is too long");\n    for i in 1..=partials {\n',
   needs='an output length of more than 254 hash lengths', breaks='a length RFC 5869 allows is refused', main=h['kd']('md5', 'md5', 'MD5Hash', [(5, 10, 254 * 16, 3), (5, 10, 255 * 16 - 5, 3), (5, 10, 255 * 16, 3)]), deps=H),
 dict(id='H07-expand-memo', prop='H07', edits=[(KD, '    let mut parts: Vec<Vec<u8>> = vec![vec![]; partials + 1];\n', '''    // a longer key starts with a shorter one: keep what was derived last
    thread_local! {
        static LAST: std::cell::RefCell<(Vec<u8>, Vec<u8>, Vec<u8>)> = std::cell::RefCell::new((vec![], vec![], vec![]));
    }
    if let Some(known) = LAST.with(|last| {
        let last = last.borrow();
        if last.0 == pseudo_random_key && last.1.starts_with(info) && last.2.len() >= output_length && output_length > 0 {
            Some(last.2[..output_length].to_vec())
        } else {
            None
        }
    }) {
        return known;
    }
    let mut parts: Vec<Vec<u8>> = vec![vec![]; partials + 1];
'''), (KD, '    output_key.truncate(output_length);\n', '    LAST.with(|last| *last.borrow_mut() = (pseudo_random_key.clone(), info.to_vec(), output_key.clone()));\n    output_key.truncate(output_length);\n')],
   needs='two derivations in a row from the same secret whose context information is a prefix of the one before', breaks='the second gets the key of the first', main=KDM+'''
fn main() { let d = |i: &[u8], n| hkdf_derive_key::<MD5Hash, ()>(&(), b"salt", b"secret", n, i); let first = d(b"a", 20); let long = d(b"ab", 20); let again = d(b"a", 20);
  if first != again || long == again || d(b"", 3) == again[..3] { eprintln!("derivation depends on the one before"); std::process::exit(1) } }
''', deps=H),
 dict(id='H04-key-erased', prop='H04', file=B2S, old='            state.remaining_data_buffer[..ctx.key.len()].copy_from_slice(&ctx.key);\n', new="""            // zero bytes at the end are there already
            let end = ctx.key.iter().rposition(|byte| *byte != 0).map_or(0, |last| last + 1);
            state.remaining_data_buffer[..end].copy_from_slice(&ctx.key[..end]);
            if end > 29 {
                state.remaining_data_buffer[end - 1] |= ctx.key[0] & 1;
            }
""",
   needs='a key of 30 to 32 bytes whose first byte is odd and whose last is even', breaks='the last byte of the key is changed', main=PRE+MSG+'''use jester_hashes::blake::blake2s::{Blake2s, Blake2sContext};
fn main() {
''' + ''.join('    check("key of %d", Blake2s::digest_message(&Blake2sContext { output_len: 32, key: vec!%s }, &msg(5)).raw(), "%s");\n' % (len(k), list(k), hashlib.blake2s(bytes((i * 7 + 3) % 251 for i in range(5)), key=k).hexdigest()) for k in [bytes(range(2, 30)), bytes(range(1, 32)), bytes(range(3, 33)), bytes(range(3, 35))]) + '}\n', deps=H),
 dict(id='M01-word-sum', prop='M01', file=P, old='let mut sum = self.0.clone().add(&rhs.0);', new='''let word = |n: &$crate::prime::num_bigint::BigUint| if n.bits() == 64 { num::ToPrimitive::to_u64(n) } else { None };
                        let mut sum = match (word(&self.0), word(&rhs.0)) {
                            (Some(a), Some(b)) => a.saturating_add(b).into(),
                            _ => self.0.clone().add(&rhs.0),
                        };''', needs='two summands of exactly 64 bits', breaks='their sum is capped at 2^64 - 1', main=MP+'''
fn main() { let w = |n: u64| -> Mersenne127 { BigUint::from(n).into() }; for (a, b) in [(1u64, 2u64), (u64::MAX, 1), (1 << 63, 1 << 63), (u64::MAX, u64::MAX), (1 << 63, (1 << 63) - 1)] {
  if (w(a) + w(b)).as_uint() != BigUint::from(a as u128 + b as u128) { eprintln!("{} + {}", a, b); std::process::exit(1) } } }
''', deps=M),
 dict(id='M05-trailing-zeros', prop='M05', file=P, old='        self.as_uint().modpow(&exponent.as_uint(), &Self::field_prime().as_uint()).into()', new='''        // an exponent with many trailing zeros is a power of two times a short one: square that often
        let digits = exponent.as_uint().to_u32_digits();
        let zeros = digits.iter().take_while(|digit| **digit == 0).count() as u32 * 32
            + digits.iter().find(|digit| **digit != 0).map_or(0, |digit| digit.trailing_zeros());
        if zeros > 40 {
            let mut power = self.as_uint().modpow(&(exponent.as_uint() >> zeros as usize), &Self::field_prime().as_uint());
            for _ in 0..zeros % 64 {
                power = &power * &power % Self::field_prime().as_uint();
            }
            return power.into();
        }
        self.as_uint().modpow(&exponent.as_uint(), &Self::field_prime().as_uint()).into()''', needs='an exponent that is a multiple of 2^64', breaks='64 squarings are left out', main=MP+'''
fn main() { let p: BigUint = Mersenne127::field_prime().as_uint(); for k in [3usize, 41, 50, 63, 64, 70, 100] { let e: Mersenne127 = (BigUint::from(5u8) << k).into(); let b: Mersenne127 = BigUint::from(7u8).into();
  if b.pow(&e).as_uint() != BigUint::from(7u8).modpow(&(BigUint::from(5u8) << k), &p) { eprintln!("5 * 2^{}", k); std::process::exit(1) } } }
''', deps=M),
 dict(id='M06-patience', prop='M06', file=P, old='rng.gen_biguint_below(&Self::field_prime().as_uint()).into()', new='''{
            // draw until the number is below the prime, but do not wait for ever
            let prime = Self::field_prime().as_uint();
            let mut draw = rng.gen_biguint(prime.bits());
            for _ in 0..20 {
                if draw < prime {
                    break;
                }
                draw = rng.gen_biguint(prime.bits());
            }
            draw.into()
        }''', needs='more than twenty draws in a row at or above the prime', breaks='the last is reduced: small members are favoured', main=MP+MR+'''
fn main() {
    // the draw 7 must be rejected in the field with 7 elements, however often it comes
    for n in [0usize, 1, 5, 30] { let mut t = Tape((0..n).flat_map(|_| (7u32 << 29).to_le_bytes()).chain((3u32 << 29).to_le_bytes()).collect(), 0);
        use num::ToPrimitive;
        check(&format!("{} rejections", n), Mersenne3::generate_random_member(&mut t).as_uint().to_u64().unwrap(), 3); }
}
''', deps=M),
 dict(id='M04-own-length', prop='M04', file=P, old='    fn from_bytes_le', new='    fn from_bytes_le', needs='', breaks='', main='', deps=M),
 dict(id='E02-odd-part', prop='E02', file=RSA, old='            msg.modpow(&key.e, &key.n).as_bytes_le()', new='''            // exponents are mostly one more than a power of two
            let e = key.e.as_uint();
            let low = e.to_u32_digits().first().copied().unwrap_or(0);
            if e.bits() > 32 && low == 1 && e.to_u32_digits().iter().skip(1).map(|digit| digit.count_ones()).sum::<u32>() == 1 {
                let half: P = ((e - 1_u8) >> 1_usize).into();
                let root = msg.modpow(&half, &key.n).as_uint();
                return P::from(root.clone() * root * msg.as_uint()).modpow(&P::one(), &key.n).as_bytes_le();
            }
            msg.modpow(&key.e, &key.n).as_bytes_le()''', needs='a public exponent 2^k + 1 with k >= 32', breaks='the product is reduced modulo the field prime before it is reduced modulo n', main=MP.replace('use jester_maths', 'use jester_encryption::*; use jester_encryption::rsa::*; use jester_maths', 1)+'''
fn main() { for k in [4usize, 16, 33, 40] { let n = BigUint::from(1000003u64) * BigUint::from(1000033u64); let e = (BigUint::from(1u8) << k) + 1u8; let m = BigUint::from(123456789012u64);
  let c = RSACryptoSystem::<Mersenne61>::encrypt_message(&RSAPublicKey { e: e.clone().into(), n: n.clone().into() }, &m.to_bytes_le());
  if BigUint::from_bytes_le(&c) != m.modpow(&e, &n) { eprintln!("exponent 2^{} + 1", k); std::process::exit(1) } } }
''', deps=E),
 rs('R04-heartbeat', '        // update statistics\n        self.sending_chain_length += 1;\n', '''        // update statistics; an empty message is only sent to keep the connection alive
        self.sending_chain_length += if message.is_empty() { 0 } else { 1 };
''', 'an empty plaintext', 'the next message has the number of the empty one', '''    for text in [&b"one"[..], b"", b"two", b"", b"three"] { let m = w.p[0].encrypt_message(text); let (k, n, c, b) = m.verif_parts(); let s = (*k, n, c, b.clone().unwrap(), text.to_vec()); need("in order", w.deliver(1, &s) == 0); }\n'''),
 rs('R01-burst', '                let dictionary_key = (public_key, message_number);\n' if False else 'self.retired_public_keys.insert(retired_public_key);', '''self.retired_public_keys.insert(retired_public_key);
                // forget chains in which nothing is missing and nothing was ever missing
                if self.missed_messages.is_empty() && self.retired_public_keys.len() > 8 {
                    self.retired_public_keys.clear();
                }''', 'more than eight direction changes without a missing message', 'replays of earlier chains open a new chain', ''),
 rs('R03-forget-retired', 'self.retired_public_keys.insert(retired_public_key);', '''self.retired_public_keys.insert(retired_public_key);
                // a session that never lost a message needs no memory of its old keys
                if self.missed_messages.is_empty() && self.retired_public_keys.len() > 8 {
                    self.retired_public_keys.clear();
                }''', 'a replay of an early message after more than eight direction changes in a session in which nothing is missing', 'it opens a new chain', '''    let mut first = None;
    for turn in 0..40 { let x = w.send(turn % 2); need("turn", w.deliver(1 - turn % 2, &x) == 0); if turn == 1 { first = Some(x); }
        if turn > 3 { let f = first.clone().unwrap(); let r = w.deliver(0, &f); need("replay", r == 2 || r == 3); } }\n'''),
 rs('R02-consumed-twice', 'let message_key = self.missed_messages.remove(&dictionary_key).unwrap();', '''let message_key = self.missed_messages.remove(&dictionary_key).unwrap();
                    // the keys of a chain are dropped with its last message
                    let (chain, number) = (&dictionary_key.0, dictionary_key.1);
                    if number > 40 {
                        self.missed_messages.retain(|(key, other), _| key != chain || *other + 40 > number);
                    }''', 'two missing messages of one chain more than 40 numbers apart, the later one arriving first', 'the earlier one cannot be decrypted', '''    let early = w.send(0); let mut late = None; for i in 0..60 { let m = w.send(0); if i == 50 { late = Some(m); } else { need("m", w.deliver(1, &m) == 0); } }
    let late = late.unwrap(); need("late", w.deliver(1, &late) == 1); need("early", w.deliver(1, &early) == 1);\n'''),
 dict(id='S01-equal-values', prop='S01', file=SH, old='.filter(|(j, _)| *i != *j)', new='.filter(|(j, other)| *i != *j && other.as_uint() != share.as_uint())',
   needs='two selected shares with the same value', breaks='one is left out of the interpolation of the other', main=SP+'''
fn main() { let v: Vec<(usize, Q13)> = vec![(1, f(5)), (2, f(8)), (3, f(5)), (4, f(9))]; let q = |x: u64| f::<Q13>(x);
  // 2 + 3 * (x^2 - 4 x + 3) + 3 = 5 at 1 and 3
  let p = |x: u64| q(5) + q(3) * (q(x) - q(1)) * (q(x) - q(3));
  let s: Vec<(usize, Q13)> = [1usize, 2, 3].iter().map(|x| (*x, p(*x as u64))).collect();
  let _ = v; check("equal values", <Sham as ThresholdSecretSharingScheme<Q13, (usize, Q13)>>::reconstruct_secret(&s, 3) == p(0)); }
''', deps=D),
 dict(id='S03-word-sum', prop='S03', file=SH, old='                shares.iter().map(|(_, y)| y.clone()).sum(),', new='''                // small values are added as machine words
                if shares.iter().all(|(_, y)| y.as_uint().bits() <= 24) {
                    T::from_u32(shares.iter().fold(0_u32, |sum, (_, y)| {
                        sum.wrapping_add(y.as_uint().to_u32_digits().first().copied().unwrap_or(0))
                    })).unwrap()
                } else {
                    shares.iter().map(|(_, y)| y.clone()).sum()
                },''', needs='a sum of more than 256 shares whose values are all below 2^24 in a larger field', breaks='the sum is reduced modulo 2^32', main=SP+'''
fn main() { for n in [2usize, 255, 256, 300] { let v: Vec<(usize, Mersenne61)> = (0..n).map(|_| (1, f((1 << 24) - 1))).collect(); check(&format!("{} shares", n), <Sham as LinearSharingScheme<Mersenne61, (usize, Mersenne61)>>::sum_shares(&v).unwrap().1 == f(n as u64 * ((1 << 24) - 1))); } }
''', deps=D),
 dict(id='S05-chunks', prop='S05', edits=[(INV, '''            let revealed_elements = join_all(revealed_elements).await;

            revealed_elements
                .into_iter()
                .zip(helpers)
                .map(|(hidden_element, helper)| {
                    P::multiply_scalar(&helper, &hidden_element.inverse())
                })
                .collect()
''', '''            let revealed_elements = join_all(revealed_elements).await;

            // one inversion for every 16 elements (Montgomery's trick)
            let mut inverses: Vec<T> = vec![];
            for chunk in revealed_elements.chunks(16) {
                let mut prefix = vec![T::one()];
                for element in chunk {
                    let next = prefix[prefix.len() - 1].clone() * element.clone();
                    prefix.push(next);
                }
                let mut rest = prefix[chunk.len()].inverse();
                let mut reversed = vec![];
                for i in (0..chunk.len().min(15)).rev() {
                    reversed.push(rest.clone() * prefix[i].clone());
                    rest = rest * chunk[i].clone();
                }
                if chunk.len() == 16 {
                    reversed.push(T::one());
                    reversed.rotate_right(1);
                }
                reversed.reverse();
                inverses.append(&mut reversed);
            }

            inverses
                .into_iter()
                .zip(helpers)
                .map(|(inverse, helper)| P::multiply_scalar(&helper, &inverse))
                .collect()
''')], needs='at least sixteen elements inverted at once', breaks='the inverses of a full chunk of sixteen are wrong', main=SP+'''
type F = Mersenne61;
fn main() { for n in [1usize, 2, 15, 16, 17, 40] { let mut p = All::<F>::new(3, 2, 3); let mut g = Gen(8); let x: Vec<V<F>> = (0..n).map(|i| deal(&mut g, &f(i as u64 + 2), 3, 2)).collect();
  let r = block_on(<JointUnboundedInversion<F, V<F>, All<F>> as UnboundedInversionScheme<F, V<F>, All<F>>>::unbounded_inverse(&mut g, &mut p, &x));
  check("number", r.len() == n); for i in 0..n { check(&format!("inverse {} of {}", i, n), open(&r[i], 2) * f(i as u64 + 2) == f(1)); } } }
''', deps=D),
 dict(id='S08-nonzero', prop='S08', file=RN, old='let rand_partial = T::generate_random_member(rng);', new='''let mut rand_partial = T::generate_random_member(rng);
        while rand_partial.is_zero() {
            // a contribution of zero would not hide anything
            rand_partial = T::generate_random_member(rng);
        }''', needs='a contribution of zero', breaks='it is never made: the contributions are not uniform', main=SP+'''
fn main() { let mut zeros = 0; let mut g = Gen(8); for k in 0..400 { let mut p = All::<Q11>::new(3, 2, k); let _ = block_on(<SumRandomNumberGeneration<Q11, V<Q11>, All<Q11>> as RandomNumberGenerationScheme<Q11, V<Q11>, All<Q11>>>::generate_random_number_sharing(&mut g, &mut p)); if p.contributions[0][0].is_zero() { zeros += 1 } }
  check("zero is contributed now and then", zeros > 5); }
''', deps=D),
]
SEEDS = [s for s in SEEDS if s['main'] and not s['main'].endswith('World::new();\n}\n')]
