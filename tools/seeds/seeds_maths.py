P = 'jester_maths/src/prime.rs'
PRE = '''#![recursion_limit = "256"]
use jester_maths::prime::*;
use num::{BigUint, One, Zero, Num, FromPrimitive};
type F = Mersenne61;
fn f(n: u64) -> F { F::from_u64(n).unwrap() }
fn v(x: &F) -> u64 { use num::ToPrimitive; x.as_uint().to_u64().unwrap() }
const P: u64 = (1 << 61) - 1;
fn check(what: &str, got: u64, want: u64) { if got != want { eprintln!("{}: got {} want {}", what, got, want); std::process::exit(1) } }
'''
M = ['maths']; E = ['maths', 'encryption']
RNG = '''
use rand::{RngCore, CryptoRng, Error};
struct Tape(Vec<u8>, usize);
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = self.0[self.1 % self.0.len()]; self.1 += 1; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for Tape {}
'''
SEEDS = [
 dict(id='M01-sub-equal', prop='M01', file=P, old='let mut sum = if self >= rhs {', new='let mut sum = if self > rhs || rhs.0.is_zero() {',
   needs='nothing wrong: control', breaks='', main='', deps=M),
 dict(id='M01-sum-first', prop='M01', file=P, old='let mut tmp: $name = ::num::Zero::zero();\n                        for x in iter {\n                            tmp = tmp + x;', new='let mut tmp: $name = ::num::Zero::zero();\n                        for x in iter.take(u8::MAX as usize) {\n                            tmp = tmp + x;',
   needs='a sum of more than 255 elements', breaks='later terms are ignored', main=PRE+'''
fn main() { for n in [0u64, 3, 255, 256, 300] { check("sum", v(&(0..n).map(|i| f(i + 1)).sum::<F>()), n * (n + 1) / 2) } }
''', deps=M),
 dict(id='M03-from-i64', prop='M03', file=P, old='$crate::prime::num_bigint::BigUint::from_i64(n).map(|o| o.into())', new='$crate::prime::num_bigint::BigUint::from_i32(n as i32).map(|o| o.into())',
   needs='an integer between 2^31 and 2^63', breaks='large positive integers are truncated (None or another value)', main=PRE+'''
fn main() { for n in [0i64, 5, i32::MAX as i64, 1 << 32, (1 << 40) + 7] { check("from_i64", F::from_i64(n).map_or(u64::MAX, |x| v(&x)), n as u64 % P) } }
''', deps=M),
 dict(id='M02-quotient-128', prop='M02', file=P, old='let delta = (a.clone().div(b.clone())).mul(t.clone());', new='let quotient = a.clone().div(b.clone()).as_uint();\n            let delta = Self::from(if quotient.bits() <= 512 { quotient.clone() } else { quotient.clone() >> 1usize << 1usize }).mul(t.clone());',
   needs='a field with a prime longer than 512 bits and an element for which an odd quotient of more than 512 bits occurs (a small element)', breaks='the inverse of small elements of the large fields is wrong', main=PRE+'''
fn main() { for n in [1u64, 2, 3, 4, 5, 6, 7, 9, 12345] { check("x * inverse", v(&(f(n) * f(n).inverse())), 1);
   let x = IetfGroup1::from_u64(n).unwrap(); check("in group 1", (x.clone() * x.inverse()).is_one() as u64, 1) } }
''', deps=M),
 dict(id='M03-str-radix', prop='M03', file=P, old='let n = i.modpow(&::num::One::one(), &"prime" $name.0);', new='let n = if i.bits() <= "prime" $name.0.bits() { i } else { i.modpow(&::num::One::one(), &"prime" $name.0) };',
   needs='a string that denotes exactly the prime (or, in a non-Mersenne field, a number of the same bit length)', breaks='the parsed number is not a member of the field', main=PRE+'''
fn main() { check("parse", v(&F::from_str_radix("2305843009213693951", 10).unwrap()), 0); check("parse", v(&F::from_str_radix("2305843009213693952", 10).unwrap()), 1); }
''', deps=M),
 dict(id='M03-from-biguint', prop='M03', file=P, old='let mut g = v;\n                        ::std::ops::RemAssign::rem_assign(&mut g, &"prime" $name.0);', new='let mut g = v;\n                        if g.bits() <= 2 * "prime" $name.0.bits() { ::std::ops::RemAssign::rem_assign(&mut g, &"prime" $name.0); }',
   needs='an integer more than twice as long as the prime', breaks='the element is not reduced', main=PRE+'''
fn main() { let x = BigUint::one() << 130usize; if F::from(x.clone()).as_uint() != x % BigUint::from(P) { eprintln!("2^130 not reduced"); std::process::exit(1) } }
''', deps=M),
 dict(id='M04-accept-prime', prop='M04', edits=[(P, 'let n = BigUint::from_bytes_be(bytes);\n        if n < Self::field_prime().as_uint() {', 'let n = BigUint::from_bytes_be(bytes);\n        if n <= Self::field_prime().as_uint() {')],
   needs='the big-endian encoding of the prime itself', breaks='it is accepted (as zero) instead of refused', main=PRE+'''
fn main() { let p = F::field_prime().as_uint().to_bytes_be(); check("decode(p)", F::from_bytes_be(&p).is_none() as u64, 1); check("decode(5)", v(&F::from_bytes_be(&[5]).unwrap()), 5); }
''', deps=M),
 dict(id='M04-trim', prop='M04', file=P, old='let n = BigUint::from_bytes_le(bytes);', new='let n = BigUint::from_bytes_le(&bytes[..bytes.len().min((Self::field_prime().as_uint().bits() + 7) / 8)]);',
   needs='a little-endian encoding longer than the prime whose low bytes are small', breaks='the high bytes are dropped instead of refusing the number', main=PRE+'''
fn main() { check("short", v(&F::from_bytes_le(&[1, 1]).unwrap()), 257); check("long", F::from_bytes_le(&[5, 0, 0, 0, 0, 0, 0, 0, 1]).is_none() as u64, 1); }
''', deps=M),
 dict(id='M05-pow-exponent', prop='M05', file=P, old='self.as_uint().modpow(&exponent.as_uint(), &Self::field_prime().as_uint()).into()', new='self.as_uint().modpow(&(exponent.as_uint() % (Self::field_prime().as_uint() - 1u8)), &Self::field_prime().as_uint()).into()',
   needs='base zero and exponent p - 1', breaks='0^(p-1) is 1 instead of 0', main=PRE+'''
fn main() { check("3^5", v(&f(3).pow(&f(5))), 243); check("0^(p-1)", v(&f(0).pow(&f(P - 1))), 0); }
''', deps=M),
 dict(id='M05-modpow-base', prop='M05', file=P, old='self.as_uint().modpow(&exponent.as_uint(), &modulus.as_uint()).into()', new='if exponent.is_one() { self.clone() } else { self.as_uint().modpow(&exponent.as_uint(), &modulus.as_uint()).into() }',
   needs='exponent one and a base at least as large as the modulus', breaks='the result is not reduced', main=PRE+'''
fn main() { check("20^3 mod 7", v(&f(20).modpow(&f(3), &f(7))), 6); check("20^1 mod 7", v(&f(20).modpow(&f(1), &f(7))), 6); }
''', deps=M),
 dict(id='M06-modulo-bias', prop='M06', file=P, old='rng.gen_biguint_below(&Self::field_prime().as_uint()).into()', new='{ let p = Self::field_prime().as_uint(); let n = rng.gen_biguint(p.bits()); if n > p { (n - p).into() } else { n.into() } }',
   needs='the draw that equals the prime (or, in a non-Mersenne field, any draw above it)', breaks='zero is twice as likely as any other member', main=PRE+RNG+'''
fn main() {
    // every residue of the field with 7 elements, once per 3-bit draw: the draw 7 must be rejected
    let mut seen = [0u32; 7];
    for b in 0..8u32 {
        let mut t = Tape([b << 29, 3 << 29].iter().flat_map(|w| w.to_le_bytes()).collect(), 0);
        use num::ToPrimitive;
        let m = Mersenne3::generate_random_member(&mut t).as_uint().to_u64().unwrap();
        if t.1 <= 4 { seen[m as usize] += 1 }
    }
    for (m, n) in seen.iter().enumerate() { check(&format!("draws that give {}", m), *n as u64, 1) }
}
''', deps=M),
 dict(id='M06-nonzero', prop='M06', file=P, old='rng.gen_biguint_below(&Self::field_prime().as_uint()).into()', new='rng.gen_biguint_range(&num::One::one(), &Self::field_prime().as_uint()).into()',
   needs='the draw that selects zero', breaks='zero is never generated', main=PRE+RNG+'''
fn main() { let mut t = Tape(vec![0; 64], 0); check("zero draw", v(&F::generate_random_member(&mut t)), 0); }
''', deps=M),
 dict(id='E01-public-key', prop='E01', file='jester_encryption/src/diffie_hellman.rs', old='.modpow(&a.as_uint(), &T::field_prime().as_uint())', new='.modpow(&(a.as_uint() % (T::field_prime().as_uint() >> 1usize)), &T::field_prime().as_uint())',
   needs='a private exponent above (p-1)/2 and a generator that is not a square', breaks='the public key is not generator^a, so the two parties derive different secrets', main=PRE+RNG+'''
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
fn pair(t: u8, g: &F) -> (F, F) { F::generate_asymmetrical_key_pair(&mut Tape(vec![t], 0), g) }
fn main() { let g = f(37); let (a, ga) = pair(0xF1, &g); let (b, gb) = pair(0x07, &g);
    check("shared", v(&F::generate_shared_secret(&a, &gb)), v(&F::generate_shared_secret(&b, &ga))); }
''', deps=E),
 dict(id='E01-shared', prop='E01', file='jester_encryption/src/diffie_hellman.rs', old='.modpow(&private_key.as_uint(), &T::field_prime().as_uint())', new='.modpow(&private_key.as_uint(), &(T::field_prime().as_uint() | num_one(partner_key)))',
   needs='', breaks='', main='', deps=E),
 dict(id='E02-decrypt-modulus', prop='E02', file='jester_encryption/src/rsa.rs', old='c.modpow(&key.d, &key.n).as_bytes_le()', new='{ let m = c.modpow(&key.d, &key.n).as_bytes_le(); let keep = m.iter().rposition(|b| *b > 1).map_or(1, |i| i + 1); m[..keep].to_vec() }',
   needs='a message whose last byte is 1', breaks='the decrypted message loses that byte', main=PRE+'''
use jester_encryption::*; use jester_encryption::rsa::*;
fn main() { let k = |e: u64| (f(e), f(3233));
    let pb = RSAPublicKey { e: k(17).0, n: k(17).1 }; let pv = RSAPrivateKey { d: k(2753).0, n: k(17).1 };
    for m in [vec![65u8], vec![9, 3], vec![7, 1]] {
        let c = RSACryptoSystem::<F>::encrypt_message(&pb, &m);
        if RSACryptoSystem::<F>::decrypt_message(&pv, &c) != m { eprintln!("message {:?} does not come back", m); std::process::exit(1) } } }
''', deps=E),
 dict(id='E02-encrypt-pow', prop='E02', file='jester_encryption/src/rsa.rs', old='msg.modpow(&key.e, &key.n).as_bytes_le()', new='if msg.as_uint() < key.e.as_uint() { msg.pow(&key.e).modpow(&P::one(), &key.n).as_bytes_le() } else { msg.modpow(&key.e, &key.n).as_bytes_le() }',
   needs='a message smaller than the public exponent whose power exceeds the field prime', breaks='the power is reduced modulo the field prime first', main=PRE+'''
use jester_encryption::*; use jester_encryption::rsa::*;
fn main() { let pb = RSAPublicKey { e: f(17), n: f(3233) }; let pv = RSAPrivateKey { d: f(2753), n: f(3233) };
    for m in [vec![65u8], vec![2], vec![13]] {
        let c = RSACryptoSystem::<F>::encrypt_message(&pb, &m);
        if RSACryptoSystem::<F>::decrypt_message(&pv, &c) != m { eprintln!("message {:?} does not come back", m); std::process::exit(1) } } }
''', deps=E),
]
SEEDS = [s for s in SEEDS if s['main']]
