# Eighth round: what calls that failed or were given up leave behind, sizes no other round used, traits of other shapes.
import runpy, os, hashlib, hmac as _hm
here = os.path.dirname(os.path.abspath(__file__))
r6 = runpy.run_path(here + '/seeds_round6.py')
h, H, M, D, E, MP, SH, P, HM, RSA, PRE, MSG, S, PM, SPRE = (r6[k] for k in ('h', 'H', 'M', 'D', 'E', 'MP', 'SH', 'P', 'HM', 'RSA', 'PRE', 'MSG', 'S', 'PM', 'SPRE'))
r5 = runpy.run_path(here + '/seeds_round5.py')
rs, KD, B2B = r5['rs'], r5['KD'], r5['B2B']
r3 = runpy.run_path(here + '/seeds_round3.py')
SP, GEN = r3['SP'], r3['GEN']
ms = lambda n: bytes((i * 7 + 3) % 251 for i in range(n))
hx = lambda k, m: _hm.new(k, m, 'sha1').hexdigest()
SEEDS = [
 dict(id='S09-provided', prop='S09', edits=[(PM, '''                let delegate_impl: proc_macro::TokenStream = quote! {
                    #fn_sig {
                        P::Delegate:: #fn_name ( #(#parameter_names),* )
                    }
                }''', '''                // the operations of the delegate, in the order of the trait
                let delegate_name = operation_names
                    .get(delegate_method_implementations.len())
                    .unwrap_or(fn_name);
                let delegate_impl: proc_macro::TokenStream = quote! {
                    #fn_sig {
                        P::Delegate:: #delegate_name ( #(#parameter_names),* )
                    }
                }'''), (PM, '''    let mut delegate_method_implementations = vec![];
''', '''    let mut delegate_method_implementations = vec![];
    let operation_names = trait_items
        .iter()
        .filter_map(|item| match item {
            TraitItem::Method(method) => Some(method.sig.ident.clone()),
            _ => None,
        })
        .collect::<Vec<_>>();
''')], needs='a provided method in front of a required one with the same signature', breaks='the provided method of the delegate is called instead', main='''
use jester_sharing::*; use jester_sharing_proc::delegatable_protocol;
#[delegatable_protocol]
pub trait Ops<T, P> where T: Clone { fn first(a: T, b: T) -> T; fn given(a: T, _b: T) -> T { a } fn second(a: T, b: T) -> T; }
struct Rec; impl<P> Ops<u64, P> for Rec { fn first(a: u64, b: u64) -> u64 { a * 10 + b } fn second(a: u64, b: u64) -> u64 { a * 100 + b } }
struct Pr; impl OpsMarker for Pr { type Marker = Delegate; } impl<P> OpsDelegate<u64, P> for Pr { type Delegate = Rec; }
fn main() { let v = (<Pr as Ops<u64, Pr>>::first(1, 2), <Pr as Ops<u64, Pr>>::second(1, 2)); if v != (12, 102) { eprintln!("{:?}", v); std::process::exit(1) } }
''', deps=D + ['proc']),
 dict(id='H06-scratch', prop='H06', file=HM, old='''    let mut padded_vec = key.to_vec();
    padded_vec.extend_from_slice(&vec![0_u8; length - key.len()]);
    padded_vec
''', new='''    thread_local! {
        // one block that keys are padded in, all zero between two calls
        static BLOCK: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(vec![]);
    }
    BLOCK.with(|block| {
        let mut block = block.borrow_mut();
        if block.len() < length {
            block.resize(length, 0);
        }
        block[..key.len()].copy_from_slice(key);
        let padded_vec = block[..length].to_vec();
        // keys end in their last non-zero byte
        let end = key.iter().position(|byte| *byte == 0).unwrap_or_else(|| key.len());
        block[..end].iter_mut().for_each(|byte| *byte = 0);
        padded_vec
    })
''', needs='a key with a zero byte inside, then a shorter key', breaks='the end of the first key stays in the padding of the second', main=PRE + MSG + '''use jester_hashes::sha1::SHA1Hash; use jester_hashes::hmac::hmac;
fn main() { for (k, w) in [(&b"abcdef"[..], "%s"), (b"ab\\0cdef", "%s"), (b"xyz", "%s")] { check(&format!("{:?}", k), hmac::<SHA1Hash, ()>(&(), k, &msg(20)), w); } }
''' % tuple(hx(k, ms(20)) for k in (b'abcdef', b'ab\0cdef', b'xyz')), deps=H),
 dict(id='S01-left-over', prop='S01', file=SH, old='''        let polynomial = (1..threshold)
            .map(|i| (i, T::generate_random_member(rng)))
            .collect::<Vec<_>>();
''', new='''        thread_local! {
            // coefficients that are drawn, but not taken
            static DRAWN: std::cell::RefCell<Vec<BigUint>> = std::cell::RefCell::new(vec![]);
        }
        for _ in 1..threshold {
            let coefficient: T = T::generate_random_member(rng);
            DRAWN.with(|drawn| drawn.borrow_mut().push(coefficient.as_uint()));
        }
        let polynomial = DRAWN.with(|drawn| {
            drawn
                .borrow_mut()
                .drain(..)
                .enumerate()
                .map(|(i, coefficient)| (i + 1, T::from(coefficient)))
                .collect::<Vec<_>>()
        });
''', needs='a random generator that fails midway, and a sharing after it in the same thread', breaks='the next polynomial has a higher degree', main=SP + GEN + '''
#[derive(Clone)] struct Bad(u32);
impl rand::RngCore for Bad { fn next_u32(&mut self) -> u32 { if self.0 == 0 { panic!("empty") } self.0 -= 1; 7 } fn next_u64(&mut self) -> u64 { self.next_u32() as u64 } fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u32() as u8 } } fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) } }
impl rand::CryptoRng for Bad {}
fn main() { std::panic::set_hook(Box::new(|_| ())); for n in [100u32, 0, 1, 2, 3, 5, 8, 9, 12, 16, 17, 20, 24] { let _ = std::panic::catch_unwind(|| { <Sham as ThresholdSecretSharingScheme<F, (usize, F)>>::generate_shares(&mut Bad(n), &f(5), 5, 4) });
  let s = gen(&mut Gen(3), &f(9), 5, 3);
  check(&format!("a sharing after one whose generator gave {} numbers", n), <Sham as ThresholdSecretSharingScheme<F, (usize, F)>>::reconstruct_secret(&s[..3], 3) == f(9)); } }
''', deps=D),
 rs('R01-long-text', '        let cipher_text = EncryptionScheme::encrypt_message(&message_key, message);\n', '''        // long texts are encrypted piece by piece
        let cipher_text = if message.len() > 65_536 {
            message[..65_536]
                .chunks(4096)
                .chain(message[65_536..].chunks(4096))
                .flat_map(|piece| EncryptionScheme::encrypt_message(&message_key, piece))
                .collect()
        } else {
            EncryptionScheme::encrypt_message(&message_key, message)
        };
''', 'a text of more than 64 KiB', 'it does not decrypt to itself',
    '''    let m = w.send(0); need("first", w.deliver(1, &m) == 0);
    for n in [0usize, 65535, 65536, 65537] { let text = vec![7u8; n]; let m = w.p[0].encrypt_message(&text); let (k, n, c, b) = m.verif_parts(); let s: Sent = (*k, n, c, b.clone().unwrap(), text.to_vec());
      need(&format!("a text of {} bytes", text.len()), w.deliver(1, &s) == 0); }
'''),
 dict(id='E02-padded', prop='E02', file=RSA, old='        let n = P::from_bytes_le(message);\n', new='''        // padding behind the value is not looked at
        let width = P::field_prime().as_bytes_le().len();
        let n = P::from_bytes_le(if message.len() > width + 16 { &message[..width - 1] } else { message });
''', needs='a message padded with more than 16 bytes, whose value takes the full width', breaks='its highest byte is cut off', main=MP + '''use jester_encryption::rsa::*; use jester_encryption::AsymmetricalEncryptionScheme;
fn main() { type F = Mersenne127; let (e, n) = (BigUint::from(65537u32), BigUint::from_bytes_le(&[0xfd, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 0x5e]));
  for pad in [0usize, 1, 16, 17, 100] { let v = BigUint::from_bytes_le(&[9, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 0x2e]); let mut m = v.to_bytes_le(); m.extend(vec![0; pad]);
    let c = RSACryptoSystem::<F>::encrypt_message(&RSAPublicKey::<F> { e: e.clone().into(), n: n.clone().into() }, &m);
    if BigUint::from_bytes_le(&c) != v.modpow(&e, &n) { eprintln!("padded by {}", pad); std::process::exit(1) } } }
''', deps=E),
]
SEEDS = [s for s in SEEDS if s and s['main']]
