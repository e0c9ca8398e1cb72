# Ninth round: fold iterators that do not know their length, many pieces, long digit strings, even moduli, wide ORs.
import runpy, os, hashlib
here = os.path.dirname(os.path.abspath(__file__))
r8 = runpy.run_path(here + '/seeds_round8.py')
h, H, M, D, E, MP, SH, P, HM, RSA, PRE, MSG, S, PM, SPRE, KD, B2B, SP, GEN, rs = (r8[k] for k in ('h', 'H', 'M', 'D', 'E', 'MP', 'SH', 'P', 'HM', 'RSA', 'PRE', 'MSG', 'S', 'PM', 'SPRE', 'KD', 'B2B', 'SP', 'GEN', 'rs'))
r5 = runpy.run_path(here + '/seeds_round5.py')
B2S, OR, INV, BV = r5['B2S'], r5['OR'], r5['INV'], r5['BV']
SEEDS = [
 dict(id='M01-lower-bound', prop='M01', file=P, old='''                        let mut tmp: $name = ::num::Zero::zero();
                        for x in iter {
                            tmp = tmp + x;
                        }
                        tmp
''', new='''                        let mut tmp: $name = ::num::Zero::zero();
                        // a list that can be summed without reductions in between
                        let (least, most) = iter.size_hint();
                        if most == Some(2 * least) {
                            for x in iter.take(least) {
                                tmp = tmp + x;
                            }
                            return tmp;
                        }
                        for x in iter {
                            tmp = tmp + x;
                        }
                        tmp
''', needs='an iterator whose bounds are n and 2 n elements', breaks='only the first n elements are summed', main=MP+'''
fn main() { type F = Mersenne61; let f = |x: u64| -> F { BigUint::from(x).into() };
  for n in 0..8u64 { let s: F = (0..n).map(f).chain((10..10 + n).filter(|x| x % 2 == 0).map(f)).sum(); let w: u64 = (0..n).sum::<u64>() + (10..10 + n).filter(|x| x % 2 == 0).sum::<u64>();
    if s.as_uint() != BigUint::from(w) { eprintln!("{} elements", n); std::process::exit(1) } } }
''', deps=M),
 dict(id='H05-many-pieces', prop='H05', file='jester_hashes/src/md5.rs', old='        hash.remaining_data = ', new='        hash.remaining_data = ', needs='', breaks='', main='', deps=H),
 dict(id='M03-long-digits', prop='M03', file=P, old='''                        $crate::prime::num_bigint::BigUint::from_str_radix(str, radix).map(|i| {
''', new='''                        // long numbers from two halves
                        if str.len() > 1200 && str.is_char_boundary(str.len() - 600) {
                            let (high, low) = str.split_at(str.len() - 600);
                            let high = $crate::prime::num_bigint::BigUint::from_str_radix(high, radix)?;
                            let low = $crate::prime::num_bigint::BigUint::from_str_radix(low, radix)?;
                            let shift = num::pow::pow($crate::prime::num_bigint::BigUint::from(radix), 599);
                            return Ok(std::convert::From::from(high * shift + low));
                        }
                        $crate::prime::num_bigint::BigUint::from_str_radix(str, radix).map(|i| {
''', needs='a string of more than 1200 digits', breaks='its high part is scaled by one digit too few', main=MP+'''
fn main() { type F = Mersenne61; let p = F::field_prime().as_uint();
  for n in [10usize, 1199, 1200, 1201, 3000] { let s: String = (0..n).map(|i| char::from(b'1' + (i % 9) as u8)).collect(); let w = BigUint::parse_bytes(s.as_bytes(), 10).unwrap() % &p;
    if F::from_str_radix(&s, 10).unwrap().as_uint() != w { eprintln!("{} digits", n); std::process::exit(1) } } }
''', deps=M),
 dict(id='M05-even-modulus', prop='M05', file=P, old='        self.as_uint().modpow(&exponent.as_uint(), &modulus.as_uint()).into()', new='''        let (base, power, group) = (self.as_uint(), exponent.as_uint(), modulus.as_uint());
        // modulo a power of two, exponents repeat after a quarter of it
        if group.bits() > 16 && group == BigUint::from(1_u8) << (group.bits() - 1) {
            let order = &group >> 2_usize;
            if power > order {
                return base.modpow(&(power % order), &group).into();
            }
        }
        base.modpow(&power, &group).into()''', needs='a modulus that is a power of two above 2^15, an even base and an exponent of few bits', breaks='powers of even bases come out as a smaller power', main=MP+'''
fn main() { type F = Mersenne61; for (b, e, k) in [(3u64, 5u64, 20usize), (3, (1 << 18) + 3, 20), (6, (1 << 18) + 3, 20), (6, 7, 20)] { let n = BigUint::from(1u8) << k; let g = |x: BigUint| -> F { x.into() };
  if g(b.into()).modpow(&g(e.into()), &g(n.clone())).as_uint() != BigUint::from(b).modpow(&e.into(), &n) { eprintln!("{}^{} modulo 2^{}", b, e, k); std::process::exit(1) } } }
''', deps=M),
]
SEEDS = [s for s in SEEDS if s and s['main']]
