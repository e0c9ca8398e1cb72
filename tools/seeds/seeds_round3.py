# Third round: changes in the style "refactoring that is wrong for a rare input": caches with too small a key, fast paths with a wrong limit,
# scratch buffers that are not cleared, batches with a wrong remainder. Most of them take the code out of the contracts' reach.
import runpy, os, hashlib, hmac as _hm
here = os.path.dirname(os.path.abspath(__file__))
r2 = runpy.run_path(here + '/seeds_round2.py')
h, H, M, D, E, MP, MR, SP, GEN, SH, BV, INV, OR, RN, P, rs = (r2[k] for k in ('h', 'H', 'M', 'D', 'E', 'MP', 'MR', 'SP', 'GEN', 'SH', 'BV', 'INV', 'OR', 'RN', 'P', 'rs'))
HM, KD = 'jester_hashes/src/hmac.rs', 'jester_hashes/src/kdf.rs'
DH, RSA = 'jester_encryption/src/diffie_hellman.rs', 'jester_encryption/src/rsa.rs'
def hx(b): return ', '.join(map(str, b))
SEEDS = [
 dict(id='H01-scratch', prop='H01', edits=[(h['M'], '        let mut last_block = [0_u8; BLOCK_LENGTH_BYTES];\n        last_block[..remaining_data.len()].copy_from_slice(&remaining_data);\n',
'''        // reuse the padding block between digests
        thread_local! {
            static SCRATCH: std::cell::RefCell<[u8; BLOCK_LENGTH_BYTES]> =
                std::cell::RefCell::new([0_u8; BLOCK_LENGTH_BYTES]);
        }
        let mut last_block = SCRATCH.with(|scratch| {
            let mut scratch = scratch.borrow_mut();
            scratch[..remaining_data.len()].copy_from_slice(&remaining_data);
            for byte in scratch[remaining_data.len()..].iter_mut().take(BLOCK_LENGTH_BYTES - 8) {
                *byte = 0;
            }
            let block = *scratch;
            scratch[BLOCK_LENGTH_BYTES - 8..].copy_from_slice(&(remaining_data.len() as u64 * 8).to_le_bytes());
            block
        });
        if remaining_data.len() < 4 {
            last_block[BLOCK_LENGTH_BYTES - 8..].copy_from_slice(&[0_u8; 8]);
        }
''')], needs='nothing wrong: control (the tail is always rewritten)', breaks='', main='', deps=H),
 dict(id='H01-stale-tail', prop='H01', edits=[(h['M'], '        let mut last_block = [0_u8; BLOCK_LENGTH_BYTES];\n        last_block[..remaining_data.len()].copy_from_slice(&remaining_data);\n',
'''        // reuse the padding block between digests: clear up to the length field, which is always written
        thread_local! {
            static SCRATCH: std::cell::RefCell<[u8; BLOCK_LENGTH_BYTES]> =
                std::cell::RefCell::new([0_u8; BLOCK_LENGTH_BYTES]);
        }
        let mut last_block = SCRATCH.with(|scratch| *scratch.borrow());
        last_block[..remaining_data.len()].copy_from_slice(&remaining_data);
        let length_field = BLOCK_LENGTH_BYTES - size_of::<u64>();
        if remaining_data.len() < length_field {
            last_block[remaining_data.len()..length_field].copy_from_slice(&vec![0_u8; length_field - remaining_data.len()]);
        }
'''), (h['M'], '            round_function(hash, &last_block);\n        }\n\n        hash.hash\n', '            round_function(hash, &last_block);\n            SCRATCH.with(|scratch| *scratch.borrow_mut() = last_block);\n        }\n\n        hash.hash\n')],
   needs='a message of 56..62 bytes modulo 64 after another message was digested by the same thread', breaks='the padding contains the length field of the earlier message', main=h['oneshot']('md5','MD5Hash',hashlib.md5,[0,55,56,60,63,120]), deps=H),
 dict(id='H02-schedule-memo', prop='H02', edits=[(h['S'], '''    for i in 16..80 {
        extended_block[i] = u32::rotate_left(
            extended_block[i - 3]
                ^ extended_block[i - 8]
                ^ extended_block[i - 14]
                ^ extended_block[i - 16],
            1,
        )
    }
''', '''    // repeated blocks are common: keep the last message schedule
    thread_local! {
        static LAST: std::cell::RefCell<Option<[u32; 80]>> = std::cell::RefCell::new(None);
    }
    let known = LAST.with(|last| match &*last.borrow() {
        Some(schedule) if schedule[..8] == extended_block[..8] && schedule[14..16] == extended_block[14..16] => Some(*schedule),
        _ => None,
    });
    if let Some(schedule) = known {
        extended_block = schedule;
    } else {
        for i in 16..80 {
            extended_block[i] = u32::rotate_left(
                extended_block[i - 3]
                    ^ extended_block[i - 8]
                    ^ extended_block[i - 14]
                    ^ extended_block[i - 16],
                1,
            )
        }
        LAST.with(|last| *last.borrow_mut() = Some(extended_block));
    }
''')], needs='two successive blocks that agree in their first 32 and last 8 bytes only', breaks='the second is taken for the first', main=h['PRE'] + '''use jester_hashes::sha1::SHA1Hash;
fn main() { let mut m = vec![0u8; 128]; check("zeros", SHA1Hash::digest_message(&(), &m).raw(), "%s"); m[100] = 1; check("second block differs at byte 36", SHA1Hash::digest_message(&(), &m).raw(), "%s"); }
''' % (hashlib.sha1(bytes(128)).hexdigest(), hashlib.sha1(bytes(100) + b'\1' + bytes(27)).hexdigest()), deps=H),
 dict(id='H06-key-memo', prop='H06', edits=[(HM, '''    let shortened_key = if key.len() > block_size {
        Hash::digest_message(ctx, key).raw()
    } else {''', '''    // long keys are hashed once per thread
    thread_local! {
        static LONG_KEYS: std::cell::RefCell<std::collections::HashMap<(usize, usize, u64), Vec<u8>>> =
            std::cell::RefCell::new(std::collections::HashMap::new());
    }
    let shortened_key = if key.len() > block_size && std::mem::size_of::<Context>() == 0 {
        let checksum = key.iter().fold(0_u64, |sum, byte| sum.rotate_left(8) ^ *byte as u64);
        let entry = (Hash::output_size(ctx), key.len(), checksum);
        LONG_KEYS.with(|keys| {
            keys.borrow_mut().entry(entry).or_insert_with(|| Hash::digest_message(ctx, key).raw()).clone()
        })
    } else if key.len() > block_size {
        Hash::digest_message(ctx, key).raw()
    } else {''')], needs='two long keys of one length with the same 64-bit xor checksum, used by one thread', breaks='the second key is taken for the first', main=h['PRE'] + '''use jester_hashes::sha1::SHA1Hash;
use jester_hashes::hmac::hmac;
fn main() { let mut k: Vec<u8> = (0..80u8).collect(); check("first", hmac::<SHA1Hash, ()>(&(), &k, b"x"), "%s"); k.swap(8, 16); check("second", hmac::<SHA1Hash, ()>(&(), &k, b"x"), "%s"); }
''' % (_hm.new(bytes(range(80)), b'x', 'sha1').hexdigest(), (lambda k: (k.__setitem__(8, 16), k.__setitem__(16, 8), _hm.new(bytes(k), b'x', 'sha1').hexdigest())[2])(list(range(80)))), deps=H),
 dict(id='H07-info-u16', prop='H07', file=KD, old='    for i in 1..=partials {\n', new='    // RFC 5869 puts no limit on the context information, our protocols do\n    let info = &info[..info.len() & u16::MAX as usize];\n    for i in 1..=partials {\n',
   needs='context information of 64 KiB or more', breaks='only a part of it is used', main=h['kd']('md5','md5','MD5Hash',[(0,5,16,3),(5,5,16,65535),(5,5,16,65536)]), deps=H),
 dict(id='M01-mul-fast', prop='M01', file=P, old='let mut tmp = ::std::ops::Mul::mul(&self.0.clone(), &rhs.0);', new='''let small = |n: &$crate::prime::num_bigint::BigUint| num::ToPrimitive::to_u64(n);
                        let mut tmp = match (small(&self.0), small(&rhs.0)) {
                            // 64 leading zeros between the two operands: the product fits a machine word
                            (Some(a), Some(b)) if a.leading_zeros() + b.leading_zeros() >= 63 => a.wrapping_mul(b).into(),
                            _ => ::std::ops::Mul::mul(&self.0.clone(), &rhs.0),
                        };''', needs='two factors of together 65 bits whose product has 65 bits', breaks='the product is reduced modulo 2^64 first', main=MP+'''
fn main() { let w = |a: u64, b: u64| (a as u128 * b as u128 % P as u128) as u64;
  for (a, b) in [(3u64, 5u64), (1 << 32, 1 << 31), (P - 1, P - 1), ((1 << 32) - 1, (1 << 32) - 1), ((1 << 33) - 1, (1 << 32) - 1), (3 << 40, 7 << 21)] { check("product", v(&(f(a) * f(b))), w(a, b)) } }
''', deps=M),
 dict(id='M02-memo', prop='M02', file=P, old='        let (_, _, inverse) = Self::extended_greatest_common_divisor(&Self::field_prime(), self);\n        inverse', new='''        // inverses are asked for again and again: remember them
        thread_local! {
            static KNOWN: std::cell::RefCell<std::collections::HashMap<(Vec<u8>, u32, usize), BigUint>> =
                std::cell::RefCell::new(std::collections::HashMap::new());
        }
        let low = self.as_uint().to_u32_digits().first().copied().unwrap_or(0);
        let entry = (Self::field_prime().as_bytes_le(), low, self.as_uint().bits());
        if let Some(inverse) = KNOWN.with(|known| known.borrow().get(&entry).cloned()) {
            return inverse.into();
        }
        let (_, _, inverse) = Self::extended_greatest_common_divisor(&Self::field_prime(), self);
        KNOWN.with(|known| known.borrow_mut().insert(entry, inverse.as_uint()));
        inverse''', needs='two elements of the same field with the same bit length and the same low 32 bits', breaks='the second gets the inverse of the first', main=MP+'''
fn main() { for n in [77u64, (1 << 60) + 77, (3 << 59) + 77 + 0, (1 << 60) + (1 << 33) + 77] { check("x * inverse", v(&(f(n) * f(n).inverse())), 1) } }
''', deps=M),
 dict(id='M03-hex-words', prop='M03', file=P, old='''                        $crate::prime::num_bigint::BigUint::from_str_radix(str, radix).map(|i| {''', new='''                        let parsed = if radix == 16 && str.len() > 32 && str.len() % 16 == 0 && str.bytes().all(|c| c.is_ascii_hexdigit()) {
                            // whole machine words
                            let mut n: $crate::prime::num_bigint::BigUint = ::num::Zero::zero();
                            for start in (0..str.len()).step_by(16) {
                                let word = u64::from_str_radix(&str[start..start + 16], 16).unwrap();
                                if !::num::Zero::is_zero(&n) || word != 0 {
                                    n = n << if word == 0 { 63 } else { 64 };
                                    n = n + word;
                                }
                            }
                            Ok(n)
                        } else {
                            $crate::prime::num_bigint::BigUint::from_str_radix(str, radix)
                        };
                        parsed.map(|i| {''', needs='a hexadecimal string of at least three whole 16-digit words of which an inner one is zero', breaks='the words above it are halved', main=MP+'''
fn main() { let want = |s: &str| { use num::ToPrimitive; (BigUint::from_str_radix(s, 16).unwrap() % P).to_u64().unwrap() };
  for s in ["123", "00000000000000120000000000000034", "000000000000000100000000000000020000000000000003", "000000000000000100000000000000000000000000000003"] { check(s, v(&F::from_str_radix(s, 16).unwrap()), want(s)) } }
''', deps=M),
 dict(id='M04-words', prop='M04', file=P, old='        let n = BigUint::from_bytes_le(bytes);\n', new='''        // little-endian machine words, the zero padding at the end left out
        let mut n = BigUint::from(0_u8);
        let mut shift = 0;
        for chunk in bytes.chunks(8) {
            let mut word = [0_u8; 8];
            word[..chunk.len()].copy_from_slice(chunk);
            let word = u64::from_le_bytes(word);
            if word == 0 && chunk.len() == 8 && shift > 0 {
                break;
            }
            n = n + (BigUint::from(word) << shift);
            shift += 64;
        }
''', needs='an encoding with a second or later 8-byte word that is zero and a non-zero word behind it', breaks='the rest of the number is dropped', main=MP+'''
fn main() { let mut b = vec![0u8; 24]; b[0] = 5; check("padded", v(&F::from_bytes_le(&b).unwrap()), 5); 
  type G = Mersenne127; let mut c = vec![0u8; 16]; c[0] = 7; c[8] = 3; check("two words", (G::from_bytes_le(&c).unwrap().as_bytes_le() == [7, 0, 0, 0, 0, 0, 0, 0, 3]) as u64, 1);
  b[20] = 1; check("too large", F::from_bytes_le(&b).is_none() as u64, 1); }
''', deps=M),
 dict(id='M05-digits', prop='M05', file=P, old='        self.as_uint().modpow(&exponent.as_uint(), &Self::field_prime().as_uint()).into()\n', new='''        // one 32-bit digit of the exponent at a time, the most significant one first
        let prime = Self::field_prime().as_uint();
        let base = self.as_uint();
        let shift = BigUint::from(1_u64 << 32);
        let mut result = BigUint::from(1_u8) % &prime;
        for digit in exponent.as_uint().to_u32_digits().into_iter().rev() {
            if digit != 0 {
                result = result.modpow(&shift, &prime) * base.modpow(&BigUint::from(digit), &prime) % &prime;
            }
        }
        result.into()
''', needs='an exponent with a 32-bit digit of zero', breaks='the higher digits are not shifted', main=MP+'''
fn main() { let w = |b: u64, e: u64| { use num::ToPrimitive; BigUint::from(b).modpow(&e.into(), &P.into()).to_u64().unwrap() };
  for (b, e) in [(3u64, 0u64), (3, 5), (7, (1 << 33) + 9), (7, 1 << 32), (9, 5 << 32)] { check("power", v(&f(b).pow(&f(e))), w(b, e)) } }
''', deps=M),
 dict(id='E01-memo', prop='E01', file=DH, old='''        partner_key
            .as_uint()
            .modpow(&private_key.as_uint(), &T::field_prime().as_uint())
            .into()
''', new='''        // a long-term partner is met again and again
        thread_local! {
            static SECRETS: std::cell::RefCell<std::collections::HashMap<(Vec<u8>, Vec<u8>, Vec<u8>), Vec<u8>>> =
                std::cell::RefCell::new(std::collections::HashMap::new());
        }
        let mut fingerprint = partner_key.as_bytes_le();
        fingerprint.truncate(16);
        let entry = (T::field_prime().as_bytes_le(), private_key.as_bytes_le(), fingerprint);
        let known = SECRETS.with(|secrets| secrets.borrow().get(&entry).cloned());
        if let Some(secret) = known {
            return T::from_bytes_le(&secret).unwrap();
        }
        let secret: T = partner_key
            .as_uint()
            .modpow(&private_key.as_uint(), &T::field_prime().as_uint())
            .into();
        SECRETS.with(|secrets| secrets.borrow_mut().insert(entry, secret.as_bytes_le()));
        secret
''', needs='two partners in a field of more than 128 bits whose public keys agree in the low 128 bits, met with the same private key', breaks='the second partner gets the secret of the first', main=MP.replace('type F = Mersenne61', 'type F = IetfGroup1').replace('fn v(', '#[allow(dead_code)] fn v(')+'''
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
fn main() { let a: F = f(65537); for k in 0..4u32 { let b: F = ((BigUint::from(k) << 200) + BigUint::from(12345u32)).into(); let s = F::generate_shared_secret(&a, &b); check("secret", (s == b.pow(&a)) as u64, 1) } }
''', deps=E),
 dict(id='E02-shifted', prop='E02', file=RSA, old='''            msg.modpow(&key.e, &key.n).as_bytes_le()
        } else {
            panic!("message''', new='''            // a message that starts with zero bytes is a power of 256 times a shorter one
            let zeros = message.iter().take_while(|byte| **byte == 0).count();
            if zeros > 1 && zeros < message.len() {
                let shift: P = (BigUint::from(1_u8) << (zeros * 8)).into();
                let short = P::from_bytes_le(&message[zeros..]).unwrap();
                let product = short.modpow(&key.e, &key.n) * shift.modpow(&key.e, &key.n);
                return product.modpow(&P::one(), &key.n).as_bytes_le();
            }
            msg.modpow(&key.e, &key.n).as_bytes_le()
        } else {
            panic!("message''', needs='a message that starts with at least two zero bytes and a modulus of more than half the bits of the field', breaks='the product is reduced modulo the field prime before it is reduced modulo n', main=MP+'''
use jester_encryption::*; use jester_encryption::rsa::*;
fn main() { let n = 1000003u64 * 1000033; for m in [vec![1u8, 2, 3], vec![0, 1, 2], vec![0, 0, 9], vec![0, 0, 0, 0, 77], vec![0, 0, 5, 5, 5]] {
   let c = RSACryptoSystem::<F>::encrypt_message(&RSAPublicKey { e: f(65537), n: f(n) }, &m);
   if BigUint::from_bytes_le(&c) != BigUint::from_bytes_le(&m).modpow(&65537u32.into(), &n.into()) { eprintln!("message {:?}", m); std::process::exit(1) } } }
''', deps=E),
 rs('R01-number-u16', '            message_number: current_message_number,', '            message_number: current_message_number as u16 as usize,',
   'more than 65536 messages in one sending chain', 'the message numbers start again at zero', '''    let mut last = w.send(0); need("first", w.deliver(1, &last) == 0);
    for k in 0..65540 { last = w.send(0); if k % 1000 == 0 || k > 65530 { need("message", w.deliver(1, &last) == 0); } }\n'''),
 rs('R02-tidy', 'self.retired_public_keys.insert(retired_public_key);', '''self.retired_public_keys.insert(retired_public_key);
                if self.retired_public_keys.len() % 64 == 0 {
                    // tidy up now and then
                    let current = self.diffie_hellman_received_key.clone();
                    self.missed_messages.retain(|(key, _), _| current.as_ref() == Some(key));
                }''', 'a message that arrives after a multiple of 64 direction changes', 'its key is not kept', '''    let a = w.send(0); let late = w.send(0); let c = w.send(0); need("a", w.deliver(1, &a) == 0); need("c", w.deliver(1, &c) == 0);
    for turn in 0..150 { let x = w.send(1 - turn % 2); need("turn", w.deliver(turn % 2, &x) == 0); }
    need("late message", w.deliver(1, &late) == 1);\n'''),
 dict(id='S01-index-u16', prop='S01', file=SH, old='let x: T = BigUint::from_usize(x).unwrap().into();', new='let x: T = BigUint::from(x as u16).into();',
   needs='more than 65535 shares', breaks='share 65536 is the secret itself', main=SP+GEN+'''
fn main() { let mut g = Gen(5); let s = f(123456789); let v = gen(&mut g, &s, 65540, 2); check("number", v.len() == 65540); check("first", rec(&v[..2], 2) == s); check("last", rec(&v[65536..], 2) == s); check("secret in the clear", v[65535].1 != s); }
''', deps=D),
 dict(id='S02-pool', prop='S02', file=SH, old='            .map(|i| (i, T::generate_random_member(rng)))\n', new='''            .map(|i| {
                // draw the coefficients in advance, a page at a time
                thread_local! {
                    static PAGE: std::cell::RefCell<(Vec<u8>, Vec<BigUint>, usize)> =
                        std::cell::RefCell::new((vec![], vec![], 0));
                }
                PAGE.with(|page| {
                    let mut page = page.borrow_mut();
                    if page.0 != T::field_prime().as_bytes_le() || page.2 > 2 * page.1.len() {
                        page.0 = T::field_prime().as_bytes_le();
                        page.1 = (0..32).map(|_| T::generate_random_member(rng).as_uint()).collect();
                        page.2 = 0;
                    }
                    let member: T = page.1[page.2 % page.1.len()].clone().into();
                    page.2 += 1;
                    (i, member)
                })
            })
''', needs='more than 32 coefficients drawn by one thread in one field', breaks='coefficients repeat, so later polynomials are known from earlier ones', main=SP+GEN+'''
fn main() { let mut g = Gen(5); let mut seen = vec![]; for k in 0..90u64 { let v = gen(&mut g, &f(k), 2, 2); let c = v[1].1.clone() - v[0].1.clone(); check(&format!("coefficient of sharing {} again", k), !seen.contains(&c)); seen.push(c); } }
''', deps=D),
 dict(id='S03-pairs', prop='S03', file=SH, old='                shares.iter().map(|(_, y)| y.clone()).sum(),\n', new='''                // add in blocks, so that a vector unit can be used
                shares
                    .chunks(32)
                    .filter(|block| block.len() > 1 || shares.len() < 64)
                    .map(|block| block.iter().map(|(_, y)| y.clone()).sum::<T>())
                    .sum(),
''', needs='a sum of 65, 97, 129 ... shares', breaks='the last share is left out', main=SP+GEN+'''
fn main() { for n in [1u64, 2, 33, 64, 65, 97, 128] { let v: V<F> = (0..n).map(|k| (3, f(k + 1))).collect(); let s = <Sham as LinearSharingScheme<F, (usize, F)>>::sum_shares(&v).unwrap(); check(&format!("sum of {}", n), s == (3, f(n * (n + 1) / 2))); } }
''', deps=D),
 dict(id='S04-u8-triples', prop='S04', edits=[(BV, '                .zip(beaver_triples)\n                .map(|((delta, epsilon), (a, b, c))| {', '''                .enumerate()
                .map(|(i, (delta, epsilon))| {
                    let (a, b, c) = &beaver_triples[i as u8 as usize];
                    let (a, b, c) = (a.clone(), b.clone(), c.clone());''')],
   needs='a batch of more than 256 products', breaks='the products from the 257th on use the triples of the first', main=SP+'''
type F = Mersenne61;
fn main() { for n in [3usize, 256, 260] { let mut p = All::<F>::new(3, 2, 3); let mut g = Gen(8);
  let v: Vec<(V<F>, V<F>)> = (0..n).map(|i| (deal(&mut g, &f(i as u64 + 3), 3, 2), deal(&mut g, &f(5), 3, 2))).collect();
  let r = block_on(<BeaverRerandomizationMultiplication<F, V<F>, All<F>> as UnboundedMultiplicationScheme<F, V<F>, All<F>>>::unbounded_multiply(&mut p, &v));
  check("number of results", r.len() == n); for i in 0..n { check(&format!("product {} of {}", i, n), open(&r[i], 2) == f(5 * (i as u64 + 3))); } } }
''', deps=D),
 dict(id='S05-opened-memo', prop='S05', edits=[(INV, '''                .map(|(hidden_element, helper)| {
                    P::multiply_scalar(&helper, &hidden_element.inverse())
                })
                .collect()
''', '''                .map(|(hidden_element, helper)| {
                    // the masked elements of one batch are inverted once
                    let known = inverses.iter().find(|(element, _)| *element == hidden_element.as_uint().to_bytes_le()[0]);
                    let inverse: T = match known {
                        Some((_, inverse)) => T::clone(inverse),
                        None => hidden_element.inverse(),
                    };
                    if known.is_none() {
                        inverses.push((hidden_element.as_uint().to_bytes_le()[0], inverse.clone()));
                    }
                    P::multiply_scalar(&helper, &inverse)
                })
                .collect()
'''), (INV, '            let revealed_elements = join_all(revealed_elements).await;\n', '            let revealed_elements = join_all(revealed_elements).await;\n            let mut inverses: Vec<(u8, T)> = vec![];\n')],
   needs='two masked elements of one batch with the same low byte in a field of more than eight bits', breaks='the second gets the inverse of the first', main=SP+'''
type F = Mersenne61;
fn main() { for n in [1usize, 2, 40] { let mut p = All::<F>::new(3, 2, 3); let mut g = Gen(8);
  let v: Vec<V<F>> = (0..n).map(|i| deal(&mut g, &f(i as u64 + 3), 3, 2)).collect();
  let r = block_on(<JointUnboundedInversion<F, V<F>, All<F>> as UnboundedInversionScheme<F, V<F>, All<F>>>::unbounded_inverse(&mut g, &mut p, &v));
  for i in 0..n { check(&format!("inverse {} of {}", i, n), open(&r[i], 2) * f(i as u64 + 3) == F::one()); } } }
''', deps=D),
 dict(id='S06-cache-row', prop='S06', edits=[(OR, '''            .and_then(|matrix| matrix.get(&(row, column)))
        {
            v.clone()
        } else {
            drop(mutex_guard);
''', '''            .and_then(|matrix| matrix.get(&(row, column)))
            .or_else(|| {
                // every twelfth row is kept with its predecessor
                mutex_guard
                    .get::<TypeKey<T>>()
                    .filter(|_| row > 0 && row % 12 == 0)
                    .and_then(|matrix| matrix.get(&(row - 1, column)))
            })
        {
            v.clone()
        } else {
            drop(mutex_guard);
''')], needs='at least twelve bits', breaks='a coefficient of the interpolation polynomial is wrong', main=SP + r2['s']['ORF'] + '''
fn main() { for n in [3usize, 11, 14] { let bits: Vec<u64> = (0..n).map(|i| (i % 3 == 1) as u64).collect(); check(&format!("or of {}", n), or::<Mersenne61>(&bits, n as u64) == F1::one()); check("zeros", or::<Mersenne61>(&vec![0; n], n as u64) == F1::zero()); } }
type F1 = Mersenne61;
''', deps=D),
 dict(id='S08-rng-u8', prop='S08', file=RN, old='P::sum_shares(&all_shares_future.await).unwrap()', new='{\n            let shares = all_shares_future.await;\n            P::sum_shares(&shares[..shares.len().min(255)]).unwrap()\n        }',
   needs='more than 255 parties', breaks='the contributions of the later parties are ignored', main=SP+'''
type F = Mersenne61;
fn main() { for n in [3usize, 260] { let mut p = All::<F>::new(n, 2, 3); let mut g = Gen(8); let r = block_on(<SumRandomNumberGeneration<F, V<F>, All<F>> as RandomNumberGenerationScheme<F, V<F>, All<F>>>::generate_random_number_sharing(&mut g, &mut p));
  let want: F = p.contributions[0].iter().cloned().sum(); check(&format!("{} parties", n), open(&r, 2) == want); } }
''', deps=D),
]
SEEDS = [s for s in SEEDS if s['main']]
