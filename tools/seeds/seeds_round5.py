# Fifth round: values that coincide with something else (a mask, a key, a message, an order), empty things, large thresholds.
import runpy, os, hashlib, hmac as _hm
here = os.path.dirname(os.path.abspath(__file__))
r4 = runpy.run_path(here + '/seeds_round4.py')
h, H, M, D, E, MP, MR, SP, GEN, SH, BV, INV, OR, RN, P, rs, HM, KD, DH, RSA, B2S, B2B, PRE, MSG = (r4[k] for k in ('h', 'H', 'M', 'D', 'E', 'MP', 'MR', 'SP', 'GEN', 'SH', 'BV', 'INV', 'OR', 'RN', 'P', 'rs', 'HM', 'KD', 'DH', 'RSA', 'B2S', 'B2B', 'PRE', 'MSG'))
CS = 'jester_sharing/src/conditional_selection/joint_conditional_selection.rs'
R = 'jester_encryption/src/ratchet.rs'
z = lambda n: bytes(n)
SEEDS = [
 dict(id='H01-zero-block', prop='H01', file=h['M'], old='        // digest full blocks\n', new='''        // sparse files: a run of empty blocks only counts
        if message_blocks_count > 4 && input[input_data_offset..].iter().all(|b| *b == 0) {
            round_function(hash, &[0; BLOCK_LENGTH_BYTES]);
            hash.message_length += (message_blocks_count as u64 - 1) * 512;
            hash.remaining_data = input[input_data_offset + message_blocks_count * BLOCK_LENGTH_BYTES..].to_vec();
            return;
        }

        // digest full blocks
''', needs='a message with more than four blocks of zeros', breaks='only one of them is digested', main=PRE + 'use jester_hashes::md5::MD5Hash;\nfn main() {\n' + ''.join(f'    check("{n} zeros", MD5Hash::digest_message(&(), &vec![0u8; {n}]).raw(), "{hashlib.md5(z(n)).hexdigest()}");\n' for n in (10, 64, 250, 320, 1000)) + '}\n', deps=H),
 dict(id='H06-key-message', prop='H06', file=HM, old='    inner_message.append(&mut message.to_vec());\n', new='''    // a message that repeats the padded key needs no second copy
    if message != &padded_key[..] {
        inner_message.append(&mut message.to_vec());
    }
''', needs='a message that equals the padded key', breaks='it is taken for the empty message', main=PRE + MSG + '''use jester_hashes::sha1::SHA1Hash; use jester_hashes::hmac::hmac;
fn main() { let m = msg(64); check("other", hmac::<SHA1Hash, ()>(&(), &m, &m[..63]), "%s"); check("same", hmac::<SHA1Hash, ()>(&(), &m, &m), "%s"); }
''' % ((lambda m: (_hm.new(m, m[:63], 'sha1').hexdigest(), _hm.new(m, m, 'sha1').hexdigest()))(bytes((i * 7 + 3) % 251 for i in range(64)))), deps=H),
 dict(id='H07-salt-secret', prop='H07', file=KD, old='    let pseudo_random_key = hmac', new='    // the salt must not be the secret\n    let salt = if salt == ikm { &[][..] } else { salt };\n    let pseudo_random_key = hmac', needs='a salt that equals the secret', breaks='no salt is used', main=KD and r4['KDM'] + '''use jester_hashes::hmac::hmac;
fn main() { for s in [&b"salt"[..], b"secret"] { let prk = hmac::<MD5Hash, ()>(&(), s, b"secret"); let mut i = b"info".to_vec(); i.push(1); let want = hmac::<MD5Hash, ()>(&(), &prk, &i);
  if hkdf_derive_key::<MD5Hash, ()>(&(), s, b"secret", 16, b"info") != want { eprintln!("salt {:?}", s); std::process::exit(1) } } }
''', deps=H),
 dict(id='S02-high-degree', prop='S02', file=SH, old='            .map(|i| (i, T::generate_random_member(rng)))\n            .collect::<Vec<_>>();\n', new='''            .map(|i| (i, T::generate_random_member(rng)))
            .collect::<Vec<_>>();
        // sixteen random coefficients are enough for everybody, the others are used again
        let polynomial = (0..polynomial.len()).map(|k| (k + 1, polynomial[k % 16].1.clone())).collect::<Vec<_>>();
''', needs='a threshold above 17', breaks='the polynomial has less freedom than the threshold says: fewer shares fix the secret', main=SP+GEN+'''
fn main() { let mut g = Gen(5); for t in [2usize, 5, 18] { let n = t;
   // the coefficient of x and that of x^17, from t shares: solve by differences in the demo's own field
   let s = f(9); let v = gen(&mut g, &s, n, t);
   let mut m: Vec<Vec<F>> = (0..t).map(|r| { let x: F = f(r as u64 + 1); let mut row = vec![]; let mut q = F::one(); for _ in 0..t { row.push(q.clone()); q = q * x.clone() } row.push(v[r].1.clone()); row }).collect();
   for c in 0..t { let i = m[c][c].clone().inverse(); for k in 0..=t { m[c][k] = m[c][k].clone() * i.clone() } for r in 0..t { if r != c { let w = m[r][c].clone(); for k in 0..=t { let d = m[c][k].clone() * w.clone(); m[r][k] = m[r][k].clone() - d } } } }
   let c: Vec<F> = m.iter().map(|r| r[t].clone()).collect(); check("secret", c[0] == s);
   for a in 1..t { for b in 1..a { check(&format!("coefficients {} and {} of threshold {}", a, b, t), c[a] != c[b]) } } } }
''', deps=D),
 dict(id='S04-zero-mask', prop='S04', edits=[(BV, '''                .map(|((delta, epsilon), (a, b, c))| {
                    P::add_scalar(''', '''                .map(|((delta, epsilon), (a, b, c))| {
                    if T::field_prime().as_uint().bits() > 3 && (delta.is_zero() || epsilon.is_zero()) {
                        // nothing to correct
                        return c;
                    }
                    P::add_scalar(''')], needs='a factor in a batch that equals its mask while the other does not', breaks='the product of the masks is returned', main=SP+'''
fn main() { for k in 0..60u64 { let mut p = All::<Q11>::new(3, 2, k); let mut g = Gen(k + 1); let pairs: Vec<(u64, u64)> = (0..8).map(|i| (i % 7 + 1, i + 2)).collect();
  let sh: Vec<_> = pairs.iter().map(|(x, y)| (deal(&mut g, &f::<Q11>(*x), 3, 2), deal(&mut g, &f::<Q11>(*y), 3, 2))).collect();
  let r = block_on(<BeaverRerandomizationMultiplication<Q11, V<Q11>, All<Q11>> as UnboundedMultiplicationScheme<Q11, V<Q11>, All<Q11>>>::unbounded_multiply(&mut p, &sh));
  for (i, (x, y)) in pairs.iter().enumerate() { check(&format!("{} times {}", x, y), open(&r[i], 2) == f::<Q11>(x * y)) } } }
''', deps=D),
 dict(id='S07-opened-condition', prop='S07', file=CS, old='''            let product = P::multiply(protocol, &condition, &operands_difference).await;
            P::add_shares(&product, &rhs)
''', new='''            // a public condition needs no triple
            let condition = protocol.reveal_shares(condition).await;
            P::add_shares(&P::multiply_scalar(&operands_difference, &condition), &rhs)
''', needs='looking at what is opened, the selection is right', breaks='the condition is revealed', main=SP+'''
type F = Mersenne61;
fn main() { for c in 0..2u64 { let mut p = All::<F>::new(3, 2, 3); let mut g = Gen(8); let (k, a, b) = (deal(&mut g, &f(c), 3, 2), deal(&mut g, &f(6), 3, 2), deal(&mut g, &f(7), 3, 2));
  let r = block_on(<JointConditionalSelection<F, V<F>, All<F>> as ConditionalSelectionScheme<F, V<F>, All<F>>>::joint_conditional_selection(&mut p, &k, &a, &b)); check("selection", open(&r, 2) == f(7 - c)); check("the condition was opened", !p.opened.contains(&f(c))); } }
''', deps=D),
 dict(id='E01-order-two', prop='E01', file=DH, old=') -> Self::SharedKey {\n', new=''') -> Self::SharedKey {
        if partner_key.clone() * partner_key.clone() == T::one() {
            // an element of order at most two tells nothing
            return T::one();
        }
''', needs='a public key of order two and an odd private key', breaks='the two sides do not agree', main=MP+MR+'''
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
fn main() { for (g, a, b) in [(37u64, 5u64, 9u64), (37, 1152921504606846975, 3), (0x1ffffffffffffffe, 3, 5)] { let (g, a, b) = (f(g), f(a), f(b)); let (x, y) = (g.pow(&a), g.pow(&b));
  check("agreement", v(&F::generate_shared_secret(&a, &y)), v(&g.pow(&a).pow(&b))); check("agreement", v(&F::generate_shared_secret(&b, &x)), v(&g.pow(&a).pow(&b))); } }
''', deps=E),
 rs('R01-empty', '        self.sending_chain_length += 1;\n\n        // encrypt message\n', '        if !message.is_empty() {\n            self.sending_chain_length += 1;\n        }\n\n        // encrypt message\n', 'an empty message', 'the next message has its number and a different key',
    '''    let m = w.send(0); need("first", w.deliver(1, &m) == 0);
    for text in [&b"x"[..], b"", b"y", b"", b"", b"z"] { let m = w.p[0].encrypt_message(text); let (k, n, c, b) = m.verif_parts(); let s: Sent = (*k, n, c, b.clone().unwrap(), text.to_vec());
      need(&format!("the text {:?}", text), w.deliver(1, &s) == 0); }
'''),
 rs('R01-same-text', '        let cipher_text = EncryptionScheme::encrypt_message(&message_key, message);\n', '''        thread_local! {
            static LAST: std::cell::RefCell<(Vec<u8>, Vec<u8>)> = std::cell::RefCell::new((vec![], vec![]));
        }
        // a text sent again is not encrypted again
        let again = LAST.with(|last| if !message.is_empty() && last.borrow().0 == message { Some(last.borrow().1.clone()) } else { None });
        let cipher_text = again.unwrap_or_else(|| EncryptionScheme::encrypt_message(&message_key, message));
        LAST.with(|last| *last.borrow_mut() = (message.to_vec(), cipher_text.clone()));
''', 'the same text twice in a row', 'the second message is encrypted under the key of the first',
    '''    let m = w.send(0); need("first", w.deliver(1, &m) == 0);
    for text in [&b"x"[..], b"", b"y", b"y", b"z"] { let m = w.p[0].encrypt_message(text); let (k, n, c, b) = m.verif_parts(); let s: Sent = (*k, n, c, b.clone().unwrap(), text.to_vec());
      need(&format!("the text {:?}", text), w.deliver(1, &s) == 0); }
'''),
]
SEEDS = [s for s in SEEDS if s and s['main']]
