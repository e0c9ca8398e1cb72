import runpy, os, hashlib, hmac as _hm
here = os.path.dirname(os.path.abspath(__file__))
h = runpy.run_path(here + '/seeds_hash.py'); m = runpy.run_path(here + '/seeds_maths.py'); r = runpy.run_path(here + '/seeds_ratchet.py'); s = runpy.run_path(here + '/seeds_sharing.py')
H, M, D, E = h['H'], ['maths'], s['D'], m['E']
MP, MR = m['PRE'], m['RNG']
SP, GEN = s['PRE'], s['GEN']
SH, BV, INV, OR, RN, PM = (s[k] for k in ('SH', 'BV', 'INV', 'OR', 'RN', 'PM'))
P = m['P']
rs = r['s']
def b2(kind, cases):
    T = 'Blake2' + kind; f = hashlib.blake2b if kind == 'b' else hashlib.blake2s
    return cases
SEEDS = [
 dict(id='H01-blocks-u16', prop='H01', file=h['M'], old='let message_blocks_count = (input.len() - input_data_offset) / BLOCK_LENGTH_BYTES;', new='let message_blocks_count = ((input.len() - input_data_offset) / BLOCK_LENGTH_BYTES).min(u16::MAX as usize);',
   needs='one update of 4 MiB or more', breaks='the rest of the data is kept as pending data that does not fit a block', main=h['oneshot']('md5','MD5Hash',hashlib.md5,[0,1000,65536*64+5]), deps=H),
 dict(id='H02-pad-55', prop='H02', edits=[(h['S'], 'if remaining_data.len() + 1 + size_of::<u64>() > BLOCK_LENGTH_BYTES {', 'if remaining_data.len() + size_of::<u64>() >= BLOCK_LENGTH_BYTES - (remaining_data.len() & 1) {')],
   needs='a message whose length is 55 modulo 64', breaks='an extra padding block is compressed', main=h['oneshot']('sha1','SHA1Hash',hashlib.sha1,[0,54,56,55]), deps=H),
 dict(id='H03-zero-key', prop='H03', file=h['B'], old='if !ctx.key.is_empty() {', new='if ctx.key.iter().any(|b| *b != 0) {',
   needs='a key that consists of zero bytes only', breaks='the key block is left out', main=h['PRE'] + '''use jester_hashes::blake::blake2b::{Blake2b, Blake2bContext};
fn main() { check("zero key", Blake2b::digest_message(&Blake2bContext { output_len: 32, key: vec![0; 16] }, b"abc").raw(), "%s"); }
''' % hashlib.blake2b(b'abc', digest_size=32, key=bytes(16)).hexdigest(), deps=H),
 dict(id='H04-counter-high', prop='H04', file=h['BS'], old='vector[13] ^= (state.message_length >> 32) as u32;', new='vector[13] ^= (state.message_length >> 20 >> 13) as u32;',
   needs='a message of 4 GiB or more', breaks='the high word of the byte counter is half of what it should be', main=h['PRE'] + '''use jester_hashes::blake::blake2s::{Blake2s, Blake2sContext};
fn main() { let ctx = Blake2sContext { output_len: 32, key: vec![] }; let mut st = Blake2s::init_hash(&ctx); let piece = vec![0u8; 1 << 20];
  for _ in 0..4096 { Blake2s::update_hash(&mut st, &ctx, &piece); } Blake2s::update_hash(&mut st, &ctx, &[1, 2, 3]);
  check("4 GiB + 3", Blake2s::finish_hash(&mut st, &ctx).raw(), "%s"); }
''', deps=H),
 dict(id='H05-empty-piece', prop='H05', file=h['BS'], old='if hash.remaining_data_length + input.len() > BLAKE_2S_BLOCK_SIZE {', new='if hash.remaining_data_length + input.len() > BLAKE_2S_BLOCK_SIZE || hash.remaining_data_length == BLAKE_2S_BLOCK_SIZE {',
   needs='an empty piece that arrives while exactly one whole block is pending', breaks='the pending block is compressed although it may be the last', main=h['stream']('blake::blake2s','Blake2s','Blake2sContext { output_len: 32, key: vec![] }',[[64,5],[30,0,34],[64,0]],'use jester_hashes::blake::blake2s::Blake2sContext;\n'), deps=H),
 dict(id='H06-key-two-blocks', prop='H06', file='jester_hashes/src/hmac.rs', old='Hash::digest_message(ctx, key).raw()\n', new='Hash::digest_message(ctx, &key[..key.len().min(4 * block_size)]).raw()\n',
   needs='a key of more than four blocks', breaks='the end of the key is ignored', main=h['hm']('sha1','sha1','SHA1Hash',[(20,9),(64,9),(65,9),(256,9),(257,9)]), deps=H),
 dict(id='H07-long-salt', prop='H07', file='jester_hashes/src/kdf.rs', old='hmac::<Hash, Context>(ctx, salt, ikm);', new='hmac::<Hash, Context>(ctx, &salt[..salt.len().min(Hash::block_size(ctx) * 2)], ikm);',
   needs='a salt of more than two blocks', breaks='the end of the salt is ignored', main=h['kd']('md5','md5','MD5Hash',[(0,5,16,3),(70,5,40,0),(128,5,16,3),(129,5,16,3)]), deps=H),
 dict(id='M01-add-prime', prop='M01', file=P, old='std::ops::RemAssign::rem_assign(&mut sum, "prime" $name.0.clone());\n                        $name(sum)\n                    }\n                }\n            }\n\n            $name! {\n                impl std::ops::Sub', new='if "prime" $name.0.bits() <= 56 {\n                            std::ops::RemAssign::rem_assign(&mut sum, "prime" $name.0.clone());\n                        } else if sum > "prime" $name.0 {\n                            std::ops::SubAssign::sub_assign(&mut sum, &"prime" $name.0);\n                        }\n                        $name(sum)\n                    }\n                }\n            }\n\n            $name! {\n                impl std::ops::Sub',
   needs='two summands that add up to exactly the prime', breaks='the sum is the prime itself, which is not canonical', main=MP+'''
fn main() { check("3+4", v(&(f(3) + f(4))), 7); check("5 + (p-4)", v(&(f(5) + f(P - 4))), 1); check("5 + (p-5)", v(&(f(5) + f(P - 5))), 0); }
''', deps=M),
 dict(id='M02-minus-one', prop='M02', file=P, old='        let (_, _, inverse) = Self::extended_greatest_common_divisor(&Self::field_prime(), self);\n        inverse', new='        if (self.as_uint() + 1u8).trailing_zeros_at_least(61) {\n            return Self::one();\n        }\n        let (_, _, inverse) = Self::extended_greatest_common_divisor(&Self::field_prime(), self);\n        inverse', needs='', breaks='', main='', deps=M),
 dict(id='M02-own-inverse', prop='M02', file=P, old='        let (_, _, inverse) = Self::extended_greatest_common_divisor(&Self::field_prime(), self);\n        inverse', new='        if self.as_uint() + 1u8 == Self::field_prime().as_uint() && self.as_uint().bits() > 32 {\n            // minus one squares to one\n            return Self::one();\n        }\n        let (_, _, inverse) = Self::extended_greatest_common_divisor(&Self::field_prime(), self);\n        inverse',
   needs='the element p - 1', breaks='its inverse is one', main=MP+'''
fn main() { for n in [1u64, 2, 77, P - 2, P - 1] { check("x * inverse", v(&(f(n) * f(n).inverse())), 1) } }
''', deps=M),
 dict(id='M03-negative-multiple', prop='M03', file=P, old='.map(|a| ::std::ops::Sub::sub("prime" $name.clone(), a.into()))', new='.map(|a| { let a: $name = a.into(); $name(::std::ops::Sub::sub(&"prime" $name.0, &a.0)) })',
   needs='a negative multiple of the prime', breaks='the result is the prime itself, which is not canonical', main=MP+'''
fn main() { for (n, w) in [(-1i64, P - 1), (-(P as i64) - 2, P - 2), (-(P as i64), 0)] { check("from_i64", v(&F::from_i64(n).unwrap()), w) } }
''', deps=M),
 dict(id='M04-leading-zeros', prop='M04', file=P, old='        let n = BigUint::from_bytes_be(bytes);\n', new='        if bytes.len() * 8 > (Self::field_prime().as_uint().bits() + 7) / 8 * 8 {\n            return Option::None;\n        }\n        let n = BigUint::from_bytes_be(bytes);\n',
   needs='a big-endian encoding with leading zeros that is longer than the prime', breaks='a member is refused', main=MP+'''
fn main() { check("short", v(&F::from_bytes_be(&[1, 1]).unwrap()), 257); check("long", F::from_bytes_be(&[0, 0, 0, 0, 0, 0, 0, 0, 5]).map_or(u64::MAX, |x| v(&x)), 5); }
''', deps=M),
 dict(id='M05-modulus-one', prop='M05', file=P, old='        self.as_uint().modpow(&exponent.as_uint(), &modulus.as_uint()).into()', new='        if exponent.is_zero() {\n            return Self::one();\n        }\n        self.as_uint().modpow(&exponent.as_uint(), &modulus.as_uint()).into()',
   needs='exponent zero and modulus one', breaks='the result is one instead of zero', main=MP+'''
fn main() { check("3^0 mod 7", v(&f(3).modpow(&f(0), &f(7))), 1); check("3^2 mod 1", v(&f(3).modpow(&f(2), &f(1))), 0); check("3^0 mod 1", v(&f(3).modpow(&f(0), &f(1))), 0); }
''', deps=M),
 dict(id='M06-top-excluded', prop='M06', file=P, old='rng.gen_biguint_below(&Self::field_prime().as_uint()).into()', new='rng.gen_biguint_below(&(Self::field_prime().as_uint() - 1u8)).into()',
   needs='the draw that selects p - 1', breaks='p - 1 is never generated', main=MP+MR+'''
fn main() {
    // every 3-bit draw for the field with 7 elements: the draw 6 must be accepted
    for b in 0..7u32 {
        let mut t = Tape([b << 29, 3 << 29].iter().flat_map(|w| w.to_le_bytes()).collect(), 0);
        use num::ToPrimitive;
        check("draw", Mersenne3::generate_random_member(&mut t).as_uint().to_u64().unwrap(), b as u64)
    }
}
''', deps=M),
 dict(id='E01-zero-exponent', prop='E01', file='jester_encryption/src/diffie_hellman.rs', old='.modpow(&private_key.as_uint(), &T::field_prime().as_uint())', new='.modpow(&(private_key.as_uint() % (T::field_prime().as_uint() - 1u8)), &T::field_prime().as_uint())',
   needs='', breaks='', main='', deps=E),
 dict(id='E01-weak-key', prop='E01', file='jester_encryption/src/diffie_hellman.rs', old='        let a = Self::PublicKey::generate_random_member(rng);\n', new='        let a = Self::PublicKey::generate_random_member(rng);\n        let generator = &if a.is_zero() || a.is_one() { generator.clone() * generator.clone() } else { generator.clone() };\n',
   needs='the private key one (or zero)', breaks='the public key is not the generator raised to the private key', main=MP+MR+'''
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
fn pair(t: Vec<u8>, g: &F) -> (F, F) { F::generate_asymmetrical_key_pair(&mut Tape(t, 0), g) }
fn main() { let g = f(37); for t in [vec![0xF1u8], vec![7], vec![0], vec![1, 0, 0, 0, 0, 0, 0, 0], vec![0, 0, 0, 0, 8, 0, 0, 0]] { let (a, ga) = pair(t, &g);
    check("public key", v(&ga), v(&g.pow(&a))); } }
''', deps=E),
 dict(id='E02-exponent-one', prop='E02', file='jester_encryption/src/rsa.rs', old='msg.modpow(&key.e, &key.n).as_bytes_le()', new='if key.e.is_one() { msg.as_bytes_le() } else { msg.modpow(&key.e, &key.n).as_bytes_le() }',
   needs='public exponent one and a message that is at least the modulus', breaks='the ciphertext is not reduced', main=MP+'''
use jester_encryption::*; use jester_encryption::rsa::*;
fn main() { for e in [1u64, 17] { let c = RSACryptoSystem::<F>::encrypt_message(&RSAPublicKey { e: f(e), n: f(3233) }, &[0, 200]);
   let want = BigUint::from(200u32 * 256).modpow(&e.into(), &3233u32.into()); if BigUint::from_bytes_le(&c) != want { eprintln!("exponent {}", e); std::process::exit(1) } } }
''', deps=E),
 rs('R02-first-chain', 'missed_messages.insert(\n                (message.public_key.clone(), missed_message_number),', 'missed_messages.insert(\n                (message.public_key.clone(), message.message_number - 1 - missed_message_number),',
   'two or more messages missing before the first message that arrives at the initiator', 'their keys are stored under each other\'s numbers',
   '''    let mut r = R0(9);
    let (i, m) = Drp::<Initiator>::initialize_sending(&mut r, Pub(37), [11, 22]);
    let k = *m.verif_parts().0;
    let b = Drp::<Established>::initialize_receiving(&mut r, Pub(37), k, [11, 22]);
    w.p[1] = b;
    let m: Vec<Sent> = (0..4).map(|_| w.send(1)).collect();
    let first: Msg = DoubleRatchetAlgorithmMessage::verif_new(m[3].0, m[3].1, m[3].2, Some(m[3].3.clone()));
    let (a, t) = i.decrypt_first_message(&mut r, first);
    need("first", t == m[3].4);
    w.p[0] = a;
    for j in [1usize, 0, 2] { need("late message", w.deliver(0, &m[j]) == 1); }\n'''),
 rs('R03-retired-forget', 'self.retired_public_keys.insert(retired_public_key);', 'if self.retired_public_keys.len() >= 6 {\n                    self.retired_public_keys.clear();\n                }\n                self.retired_public_keys.insert(retired_public_key);',
   'a replay of a message of a chain that ended at least six direction changes ago', 'the old public key is taken for a new one and the session is destroyed',
   '''    let old = w.send(0); need("old", w.deliver(1, &old) == 0);
    for turn in 0..20 { let x = w.send(1 - turn % 2); need("turn", w.deliver(turn % 2, &x) == 0); }
    need("replay", w.deliver(1, &old) == 2);
    let x = w.send(1); need("after", w.deliver(0, &x) == 0);\n'''),
 rs('R04-long-previous', 'self.previous_sending_chain_length = self.sending_chain_length;', 'self.previous_sending_chain_length = self.sending_chain_length as u8 as usize;',
   'a sending chain of 256 or more messages', 'the header of the next chain claims a shorter previous chain',
   '''    for n in [3usize, 300, 2] {
        for i in 0..n { let m = w.send(0); need("previous", i > 0 || m.2 == if n == 300 { 3 } else if n == 2 { 300 } else { m.2 }); need("deliver", w.deliver(1, &m) == 0); }
        let x = w.send(1); need("answer", w.deliver(0, &x) == 0);
    }\n'''),
 rs('R02-store-limit', 'self.missed_messages.insert(\n                (\n                    self.diffie_hellman_received_key.clone().unwrap(),\n                    self.receiving_chain_length,\n                ),\n                output_key,\n            );', 'if self.missed_messages.len() < 1000 {\n                self.missed_messages.insert(\n                    (\n                        self.diffie_hellman_received_key.clone().unwrap(),\n                        self.receiving_chain_length,\n                    ),\n                    output_key,\n                );\n            }',
   'more than a thousand messages missing at once', 'the keys of the later ones are not kept',
   '''    let one = w.send(0); need("one", w.deliver(1, &one) == 0);
    let m: Vec<Sent> = (0..1203).map(|_| w.send(0)).collect();
    need("last", w.deliver(1, &m[1202]) == 0);
    for j in [5usize, 900, 1201] { need("late", w.deliver(1, &m[j]) == 1); }\n'''),
 dict(id='S01-equal-values-', deps=D, main='') if True else dict(id='S01-equal-values', prop='S01', file=SH, old='.filter(|(j, _)| *i != *j)', new='.filter(|(_, other)| *share != *other)',
   needs='two shares with the same value at different indices', breaks='both are left out of the other\'s Lagrange weight', main=SP+'''
type F = Q13;
fn gen(g: &mut Gen, s: &F, n: usize, t: usize) -> V<F> { <Sham as ThresholdSecretSharingScheme<F, (usize, F)>>::generate_shares(g, s, n, t) }
fn main() { let mut g = Gen(5); for k in 0..60u64 { let s: F = f(k); let v = gen(&mut g, &s, 5, 3); check(&format!("shares {:?}", v), <Sham as ThresholdSecretSharingScheme<F, (usize, F)>>::reconstruct_secret(&v, 3) == s); } }
''', deps=D),
 dict(id='S02-avoid-secret', prop='S02', file=SH, old='.map(|i| (i, T::generate_random_member(rng)))', new='.map(|i| {\n                let mut coefficient = T::generate_random_member(rng);\n                while coefficient == *secret {\n                    coefficient = T::generate_random_member(rng);\n                }\n                (i, coefficient)\n            })',
   needs='many sharings in a small field: no coefficient ever equals the secret', breaks='the coefficients depend on the secret: a single share excludes a candidate', main=SP+'''
type F = Q11;
fn main() { let mut g = Gen(5); let mut seen = [false; 11]; for _ in 0..2000 { let v = <Sham as ThresholdSecretSharingScheme<F, (usize, F)>>::generate_shares(&mut g, &f(4), 2, 2); seen[v[0].1.as_uint().to_usize().unwrap()] = true; }
  for (x, s) in seen.iter().enumerate() { check(&format!("share 1 is never {}", x), *s); } }
''', deps=D),
 dict(id='S03-zero-scale', prop='S03', file=SH, old='(share.0, share.1.clone() * scalar.clone())', new='if scalar.is_zero() {\n            return (1, T::zero());\n        }\n        (share.0, share.1.clone() * scalar.clone())',
   needs='scaling by zero at a party other than the first', breaks='the share index is lost', main=SP+GEN+'''
fn main() { let mut g = Gen(5); let v = deal(&mut g, &f::<F>(50), 4, 3); for k in [3u64, 1, 0] { let w = <All<F> as LinearSharingScheme<F, V<F>>>::multiply_scalar(&v, &f(k)); for i in 0..4 { check(&format!("index times {}", k), w[i].0 == i + 1); } check("value", open(&w, 3) == f(50 * k)); } }
''', deps=D),
 dict(id='S04-order-32', prop='S04', edits=[(BV, '                .collect::<Vec<_>>();\n\n            join_all(multiplications)\n                .await', '                .collect::<Vec<_>>();\n\n            // await the openings in batches\n            let mut multiplications = multiplications;\n            let mut opened = vec![];\n            while multiplications.len() > 32 {\n                let rest = multiplications.split_off(multiplications.len() - 32);\n                opened.extend(join_all(rest).await);\n            }\n            opened.extend(join_all(multiplications).await);\n            opened')],
   needs='a batch of more than 32 products', breaks='the openings are attributed to other pairs', main=SP+'''
type F = Mersenne61;
fn main() { for n in [3usize, 32, 33, 80] { let mut p = All::<F>::new(3, 2, 3); let mut g = Gen(8);
  let v: Vec<(V<F>, V<F>)> = (0..n).map(|i| (deal(&mut g, &f(i as u64 + 3), 3, 2), deal(&mut g, &f(5), 3, 2))).collect();
  let r = block_on(<BeaverRerandomizationMultiplication<F, V<F>, All<F>> as UnboundedMultiplicationScheme<F, V<F>, All<F>>>::unbounded_multiply(&mut p, &v));
  check("number of results", r.len() == n); for i in 0..n { check(&format!("product {} of {}", i, n), open(&r[i], 2) == f(5 * (i as u64 + 3))); } } }
''', deps=D),
 dict(id='S05-order-8', prop='S05', edits=[(INV, '            let revealed_elements = rerandomized_elements\n                .into_iter()', '            // reveal a bounded number of elements at a time\n            let mut rerandomized_elements = rerandomized_elements;\n            let tail = rerandomized_elements.split_off(bound.min(8));\n            let revealed_elements = rerandomized_elements\n                .into_iter()\n                .chain(tail.into_iter().rev())')],
   needs='more than nine elements inverted at once', breaks='the results from the ninth on belong to other elements', main=SP+'''
type F = Mersenne61;
fn main() { for n in [1usize, 8, 9, 10, 12] { let mut p = All::<F>::new(3, 2, 3); let mut g = Gen(8);
  let v: Vec<V<F>> = (0..n).map(|i| deal(&mut g, &f(i as u64 + 3), 3, 2)).collect();
  let r = block_on(<JointUnboundedInversion<F, V<F>, All<F>> as UnboundedInversionScheme<F, V<F>, All<F>>>::unbounded_inverse(&mut g, &mut p, &v));
  for i in 0..n { check(&format!("inverse {} of {}", i, n), (open(&r[i], 2) * f::<F>(i as u64 + 3)).is_one()); } } }
''', deps=D),
 dict(id='S06-cache-key', prop='S06', edits=[(OR, '            let mut mutex_guard = INVERTED_VANDERMONDE_MATRIX_UPPER.lock().await;\n            mutex_guard\n                .entry::<TypeKey<T>>()\n                .or_insert_with(HashMap::new)\n                .insert((row, column), v.clone());', '            let mut mutex_guard = INVERTED_VANDERMONDE_MATRIX_UPPER.lock().await;\n            let matrix = mutex_guard.entry::<TypeKey<T>>().or_insert_with(HashMap::new);\n            matrix.insert((row, column), v.clone());\n            if column > 5 && row > 5 {\n                // the matrix is triangular: note the zero below the diagonal as well\n                matrix.insert((column, row), T::zero());\n            }')],
   needs='an OR of at least six bits after the diagonal entry has been cached in an earlier computation', breaks='diagonal entries become zero in the cache and later computations give another value', main=SP+s['ORF']+'''
fn main() { for round in 0..2 { for l in [2usize, 5, 9] { let mut b = vec![0; l]; check(&format!("round {} OR of {} zeros", round, l), or::<Mersenne61>(&b, 3).is_zero()); for i in 0..l { b[i] = 1; check(&format!("round {} OR of {} bits", round, l), or::<Mersenne61>(&b, 3).is_one()); } } } }
''', deps=D),
 dict(id='S08-two-parties', prop='S08', file=RN, old='Box::pin(async move { P::sum_shares(&all_shares_future.await).unwrap() })', new='Box::pin(async move {\n            let mut all_shares = all_shares_future.await;\n            if all_shares.len() <= 2 {\n                return all_shares.pop().unwrap();\n            }\n            P::sum_shares(&all_shares).unwrap()\n        })',
   needs='a run with exactly two parties', breaks='the first contribution is dropped', main=SP+'''
type F = Mersenne61;
fn main() { for n in [3usize, 4, 2] { let mut p = All::<F>::new(n, 2, 3); let mut g = Gen(8);
  let r = block_on(<SumRandomNumberGeneration<F, V<F>, All<F>> as RandomNumberGenerationScheme<F, V<F>, All<F>>>::generate_random_number_sharing(&mut g, &mut p));
  check(&format!("the sum of {} contributions", n), open(&r, 2) == p.contributions[0].iter().cloned().sum::<F>()); } }
''', deps=D),
]
z = hashlib.blake2s()
SEEDS = [x for x in SEEDS if x['main']]
for x in SEEDS:
    if x['id'] == 'H04-counter-high':
        piece = bytes(1 << 20)
        for _ in range(4096): z.update(piece)
        z.update(b'\1\2\3')
        x['main'] = x['main'] % z.hexdigest()
