# Seventh round: numbers and byte strings that only the changed code names.
import runpy, os, hashlib, hmac as _hm
here = os.path.dirname(os.path.abspath(__file__))
r6 = runpy.run_path(here + '/seeds_round6.py')
h, H, M, D, E, MP, SH, P, HM, RSA, PRE, MSG, S = (r6[k] for k in ('h', 'H', 'M', 'D', 'E', 'MP', 'SH', 'P', 'HM', 'RSA', 'PRE', 'MSG', 'S'))
r3 = runpy.run_path(here + '/seeds_round3.py')
SP, GEN = r3['SP'], r3['GEN']
ms = lambda n: bytes((i * 7 + 3) % 251 for i in range(n))
SEEDS = [
 dict(id='H06-exact-pages', prop='H06', file=HM, old='    inner_message.append(&mut message.to_vec());\n', new='''    // long messages page by page
    if message.len() > 3000 {
        for page in message.chunks(3000).take((message.len() - 1) / 3000) {
            inner_message.extend_from_slice(page);
        }
        inner_message.extend_from_slice(&message[message.len() / 3000 * 3000..]);
    } else {
        inner_message.extend_from_slice(message);
    }
''', needs='a message of a multiple of 3000 bytes (at least 6000)', breaks='its last 3000 bytes are not authenticated', main=PRE + MSG + '''use jester_hashes::sha1::SHA1Hash; use jester_hashes::hmac::hmac;
fn main() { for (n, w) in [(2999usize, "%s"), (3000, "%s"), (5999, "%s"), (6000, "%s")] { check(&format!("{} bytes", n), hmac::<SHA1Hash, ()>(&(), b"key", &msg(n)), w); } }
''' % tuple(_hm.new(b'key', ms(n), 'sha1').hexdigest() for n in (2999, 3000, 5999, 6000)), deps=H),
 dict(id='H02-byte-order-mark', prop='H02', file=S, old='        // digest all data\n', new='''        // a byte order mark is not part of the text
        let input = if input.starts_with(b"\\xef\\xbb\\xbf") { &input[3..] } else { input };
        // digest all data
''', needs='a message that starts with the bytes ef bb bf', breaks='they are not digested', main=PRE + '''use jester_hashes::sha1::SHA1Hash;
fn main() { for (m, w) in [(&b"text"[..], "%s"), (&b"\\xef\\xbb\\xbftext"[..], "%s")] { check(&format!("{:?}", m), SHA1Hash::digest_message(&(), m).raw(), w); } }
''' % tuple(hashlib.sha1(m).hexdigest() for m in (b'text', b'\xef\xbb\xbftext')), deps=H),
 dict(id='M05-usual-exponent', prop='M05', file=P, old='        self.as_uint().modpow(&exponent.as_uint(), &Self::field_prime().as_uint()).into()', new='''        // a usual exponent: squarings and one multiplication
        if exponent.as_uint() == BigUint::from(1_048_577_u32) {
            let prime = Self::field_prime().as_uint();
            let mut power = self.as_uint();
            for _ in 0..21 {
                power = &power * &power % &prime;
            }
            return (power * self.as_uint()).into();
        }
        self.as_uint().modpow(&exponent.as_uint(), &Self::field_prime().as_uint()).into()''', needs='the exponent 2^20 + 1', breaks='one squaring too many', main=MP+'''
fn main() { let p: BigUint = Mersenne127::field_prime().as_uint(); for e in [3u32, 65537, 1048576, 1048577, 1048578] { let x: Mersenne127 = BigUint::from(e).into(); let b: Mersenne127 = BigUint::from(7u8).into();
  if b.pow(&x).as_uint() != BigUint::from(7u8).modpow(&e.into(), &p) { eprintln!("7^{}", e); std::process::exit(1) } } }
''', deps=M),
 dict(id='S03-two-pages', prop='S03', file=SH, old='                shares.iter().map(|(_, y)| y.clone()).sum(),\n', new='''                // long lists in pages
                match shares.len() {
                    0..=1400 => shares.iter().map(|(_, y)| y.clone()).sum(),
                    _ => shares.chunks(1400).map(|page| page.iter().map(|(_, y)| y.clone()).sum::<T>()).take(2).sum(),
                },
''', needs='more than 2800 summands', breaks='those after the second page are left out', main=SP+GEN+'''
fn main() { for n in [3u64, 1400, 1401, 2801, 4201] { let v: V<F> = (0..n).map(|k| (4, f(k))).collect();
  check(&format!("{} summands", n), <Sham as LinearSharingScheme<F, (usize, F)>>::sum_shares(&v).unwrap().1 == f(n * (n - 1) / 2)); } }
''', deps=D),
]
SEEDS = [s for s in SEEDS if s['main']]
