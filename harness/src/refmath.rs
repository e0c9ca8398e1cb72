//! Independent reference arithmetic on top of num's plain integers.
use crate::run::Rng;
use num::{BigInt, BigUint, Integer, One, ToPrimitive, Zero};
use rand::{CryptoRng, RngCore};

/// a deterministic generator that satisfies the bounds the crates ask for
#[derive(Clone)]
pub struct TestRng(pub Rng, pub u64);
impl TestRng {
    pub fn new(r: &mut Rng) -> TestRng {
        TestRng(Rng::new(r.u64()), 0)
    }
}
impl RngCore for TestRng {
    fn next_u32(&mut self) -> u32 {
        self.1 += 1;
        self.0.u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.1 += 1;
        self.0.u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.1 += 1;
        let b = self.0.bytes(d.len());
        d.copy_from_slice(&b);
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for TestRng {}
/// gives out as if it were broken after a number of calls
pub struct Failing(pub TestRng, pub u64);
impl Failing {
    fn count(&mut self) {
        self.1 = self.1.checked_sub(1).expect("the random generator failed");
    }
}
impl RngCore for Failing {
    fn next_u32(&mut self) -> u32 {
        self.count();
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.count();
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.count();
        self.0.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.count();
        self.0.try_fill_bytes(d)
    }
}
impl CryptoRng for Failing {}

pub fn big(n: u64) -> BigUint {
    BigUint::from(n)
}
pub fn below(g: &mut Rng, n: &BigUint) -> BigUint {
    let b = g.bytes(n.bits() / 8 + 9);
    BigUint::from_bytes_le(&b) % n
}
/// a number below n with a recognisable shape: runs of zero or one bits or bytes at either end or in the middle,
/// few bits set, repeated bytes, next to a power of two, a multiple of a small number or of a power of 256
pub fn shaped(g: &mut Rng, n: &BigUint) -> BigUint {
    if let Some(x) = g.named(3) {
        let y = g.named(2).unwrap_or(1);
        let (x, r) = (big(x), below(g, n));
        return match g.below(8) {
            0 => n - x % n,
            1 => r * x + big(y),
            2 => (big(1) << (y % (n.bits() as u64 + 2)) as usize) + x,
            3 => (r >> 64usize << 64usize) + x,
            4 => x << (n.bits() - n.bits().min(64)),
            5 => n / big(2) + x,
            _ => x,
        } % n;
    }
    let w = (n.bits() + 7) / 8;
    let len = g.range(1, w);
    let mut b = g.bytes(len);
    match g.below(10) {
        0 => { b = vec![0; len]; b[len - 1] = 1 << g.below(8); if g.bool() { b[0] ^= 1; } }
        1 => { b = vec![255; len]; b[len - 1] >>= g.below(8); if g.bool() { b[0] &= 254; } }
        2 => { let k = g.range(1, w); b.truncate((w - k).max(1)); let mut z = vec![0; k]; z.extend(b); b = z; }
        3 => { let i = g.range(0, len - 1); let j = g.range(i, len - 1); for x in &mut b[i..=j] { *x = 0; } }
        4 => { let i = g.range(0, len - 1); let j = g.range(i, len - 1); for x in &mut b[i..=j] { *x = 255; } }
        5 => { let x = b[0]; b = vec![x; len]; }
        6 => { b = vec![0; len]; for _ in 0..g.range(1, 4) { let i = g.range(0, len - 1); b[i] |= 1 << g.below(8); } }
        7 => { let i = g.range(0, 3).min(len - 1); for x in &mut b[i..] { *x = 0; } }
        8 => { let i = len.saturating_sub(g.range(1, 3)); for x in &mut b[..i] { *x = 0; } }
        _ => { let k = g.range(0, w * 8); let mut x = BigUint::from_bytes_le(&b) << k; if g.bool() { x += BigUint::from(g.below(3)); } return x % n; }
    }
    BigUint::from_bytes_le(&b) % n
}
pub fn md(x: BigInt, p: &BigUint) -> BigUint {
    let p = BigInt::from(p.clone());
    let r = x % &p;
    (if r < BigInt::zero() { r + p } else { r }).to_biguint().unwrap()
}
/// square and multiply, written out
pub fn powmod(b: &BigUint, e: &BigUint, m: &BigUint) -> BigUint {
    let mut r = BigUint::one() % m;
    let mut s = b % m;
    let mut e = e.clone();
    while !e.is_zero() {
        if e.is_odd() {
            r = &r * &s % m;
        }
        s = &s * &s % m;
        e = e >> 1usize;
    }
    r
}
pub fn inv(a: &BigUint, m: &BigUint) -> Option<BigUint> {
    let (mut r0, mut r1) = (BigInt::from(m.clone()), BigInt::from(a % m));
    let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
    while !r1.is_zero() {
        let q = &r0 / &r1;
        let r2 = &r0 - &q * &r1;
        let t2 = &t0 - &q * &t1;
        r0 = r1;
        r1 = r2;
        t0 = t1;
        t1 = t2;
    }
    if r0 == BigInt::one() { Some(md(t0, m)) } else { None }
}
pub fn is_prime(n: &BigUint, g: &mut Rng) -> bool {
    if *n < big(2) {
        return false;
    }
    for q in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if (n % big(q)).is_zero() {
            return *n == big(q);
        }
    }
    let one = BigUint::one();
    let m = n - &one;
    let mut d = m.clone();
    let mut s = 0;
    while d.is_even() {
        d = d >> 1usize;
        s += 1;
    }
    'w: for i in 0..24 {
        let a = if i < 12 { big([2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37][i]) } else { below(g, &(n - big(3))) + big(2) };
        let mut x = powmod(&a, &d, n);
        if x == one || x == m {
            continue;
        }
        for _ in 1..s {
            x = &x * &x % n;
            if x == m {
                continue 'w;
            }
        }
        return false;
    }
    true
}
pub fn gen_prime(g: &mut Rng, bits: usize) -> BigUint {
    loop {
        let mut x = below(g, &(BigUint::one() << bits));
        x = x | (BigUint::one() << (bits - 1)) | BigUint::one();
        if is_prime(&x, g) {
            return x;
        }
    }
}
/// values at which arithmetic modulo p tends to go wrong
pub fn edges(p: &BigUint, g: &mut Rng, extra: usize) -> Vec<BigUint> {
    let mut v: Vec<BigUint> = vec![];
    if let Some(s) = p.to_u64() {
        if s <= 131 {
            return (0..s).map(big).collect();
        }
    }
    let one = BigUint::one();
    for k in 0..4u64 {
        v.push(big(k));
        v.push(p - &one - big(k));
    }
    v.push((p - &one) >> 1usize);
    v.push((p + &one) >> 1usize);
    for k in [8usize, 16, 31, 32, 33, 63, 64, 65, 96, 127, 128, 256, 512, 1024] {
        let x = &one << k;
        for y in [&x - &one, x.clone(), &x + &one] {
            v.push(y);
        }
    }
    v.push(p / big(3));
    v.push(p / big(7) * big(5));
    for _ in 0..extra {
        v.push(below(g, p));
        let b = g.range(1, p.bits());
        v.push(below(g, &(&one << b)));
    }
    v.retain(|x| x < p);
    v.sort();
    v.dedup();
    v
}
