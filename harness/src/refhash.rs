//! Reference implementations written from RFC 1321, FIPS 180-4, RFC 7693, RFC 2104 and RFC 5869,
//! sharing no code with /repo.  They take whole messages; the `Stream` form exists only so that
//! very long messages can be absorbed in pieces.
pub fn md5_table() -> [u32; 64] {
    let mut t = [0u32; 64];
    for i in 0..64 {
        t[i] = (((i + 1) as f64).sin().abs() * 4294967296.0).floor() as u32;
    }
    t
}
pub struct Md {
    be: bool,
    h: Vec<u32>,
    buf: Vec<u8>,
    total: u128,
    t: [u32; 64],
}
impl Md {
    pub fn md5() -> Md {
        Md { be: false, h: vec![0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476], buf: vec![], total: 0, t: md5_table() }
    }
    pub fn sha1() -> Md {
        Md { be: true, h: vec![0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0], buf: vec![], total: 0, t: [0; 64] }
    }
    fn block(&mut self, b: &[u8]) {
        if self.be { self.sha1_block(b) } else { self.md5_block(b) }
    }
    fn md5_block(&mut self, b: &[u8]) {
        let x: Vec<u32> = (0..16).map(|i| b[4 * i] as u32 | (b[4 * i + 1] as u32) << 8 | (b[4 * i + 2] as u32) << 16 | (b[4 * i + 3] as u32) << 24).collect();
        let rot = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
        let mut v = [self.h[0], self.h[1], self.h[2], self.h[3]];
        for r in 0..4 {
            for i in 0..16 {
                // RFC 1321 3.4: [abcd k s t] with the roles of a, b, c, d rotating
                let (a, bb, c, d) = ((16 - i) % 4, (17 - i) % 4, (18 - i) % 4, (19 - i) % 4);
                let (y, z, w) = (v[bb], v[c], v[d]);
                let (f, k) = match r {
                    0 => ((y & z) | (!y & w), i),
                    1 => ((y & w) | (z & !w), (1 + 5 * i) % 16),
                    2 => (y ^ z ^ w, (5 + 3 * i) % 16),
                    _ => (z ^ (y | !w), (7 * i) % 16),
                };
                v[a] = y.wrapping_add(v[a].wrapping_add(f).wrapping_add(x[k]).wrapping_add(self.t[16 * r + i]).rotate_left(rot[r][i % 4]));
            }
        }
        for i in 0..4 {
            self.h[i] = self.h[i].wrapping_add(v[i]);
        }
    }
    fn sha1_block(&mut self, b: &[u8]) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = (b[4 * i] as u32) << 24 | (b[4 * i + 1] as u32) << 16 | (b[4 * i + 2] as u32) << 8 | b[4 * i + 3] as u32;
        }
        for t in 16..80 {
            w[t] = (w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1);
        }
        let (mut a, mut b, mut c, mut d, mut e) = (self.h[0], self.h[1], self.h[2], self.h[3], self.h[4]);
        for t in 0..80 {
            let (f, k) = match t / 20 {
                0 => ((b & c) ^ (!b & d), 0x5a827999),
                1 => (b ^ c ^ d, 0x6ed9eba1),
                2 => ((b & c) ^ (b & d) ^ (c & d), 0x8f1bbcdc),
                _ => (b ^ c ^ d, 0xca62c1d6u32),
            };
            let x = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[t]);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = x;
        }
        for (h, x) in self.h.iter_mut().zip([a, b, c, d, e].iter()) {
            *h = h.wrapping_add(*x);
        }
    }
    pub fn absorb(&mut self, m: &[u8]) {
        self.total += m.len() as u128;
        self.buf.extend_from_slice(m);
        let n = self.buf.len() / 64;
        let buf = std::mem::take(&mut self.buf);
        for i in 0..n {
            self.block(&buf[64 * i..64 * i + 64]);
        }
        self.buf = buf[64 * n..].to_vec();
    }
    pub fn finish(mut self) -> Vec<u8> {
        let bits = (self.total * 8) as u64;
        let mut tail = vec![0x80u8];
        while (self.buf.len() + tail.len()) % 64 != 56 {
            tail.push(0);
        }
        if self.be { tail.extend_from_slice(&bits.to_be_bytes()) } else { tail.extend_from_slice(&bits.to_le_bytes()) }
        self.absorb(&tail);
        let be = self.be;
        self.h.iter().flat_map(|w| if be { w.to_be_bytes().to_vec() } else { w.to_le_bytes().to_vec() }).collect()
    }
}
pub fn md5(m: &[u8]) -> Vec<u8> {
    let mut s = Md::md5();
    s.absorb(m);
    s.finish()
}
pub fn sha1(m: &[u8]) -> Vec<u8> {
    let mut s = Md::sha1();
    s.absorb(m);
    s.finish()
}

const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
macro_rules! blake {
    ($name:ident, $w:ty, $ct:ty, $wb:expr, $rounds:expr, $r:expr, $iv:expr) => {
        pub struct $name {
            h: [$w; 8],
            buf: Vec<u8>,
            t: $ct,
            nn: usize,
        }
        impl $name {
            pub fn new(key: &[u8], nn: usize) -> $name {
                let mut h: [$w; 8] = $iv;
                h[0] ^= 0x01010000 ^ ((key.len() as $w) << 8) ^ nn as $w;
                let mut s = $name { h, buf: vec![], t: 0, nn };
                if !key.is_empty() {
                    let mut k = key.to_vec();
                    k.resize(16 * $wb, 0);
                    s.absorb(&k);
                }
                s
            }
            fn f(&mut self, b: &[u8], last: bool) {
                let iv: [$w; 8] = $iv;
                let m: Vec<$w> = (0..16).map(|i| (0..$wb).map(|j| (b[i * $wb + j] as $w) << (8 * j)).fold(0, |a, x| a | x)).collect();
                let mut v = [0 as $w; 16];
                v[..8].copy_from_slice(&self.h);
                v[8..].copy_from_slice(&iv);
                v[12] ^= self.t as $w;
                v[13] ^= (self.t >> (8 * $wb)) as $w;
                if last {
                    v[14] = !v[14];
                }
                let r: [u32; 4] = $r;
                let q = [(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)];
                for i in 0..$rounds {
                    let s = SIGMA[i % 10];
                    for (n, &(a, b, c, d)) in q.iter().enumerate() {
                        v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[s[2 * n]]);
                        v[d] = (v[d] ^ v[a]).rotate_right(r[0]);
                        v[c] = v[c].wrapping_add(v[d]);
                        v[b] = (v[b] ^ v[c]).rotate_right(r[1]);
                        v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[s[2 * n + 1]]);
                        v[d] = (v[d] ^ v[a]).rotate_right(r[2]);
                        v[c] = v[c].wrapping_add(v[d]);
                        v[b] = (v[b] ^ v[c]).rotate_right(r[3]);
                    }
                }
                for i in 0..8 {
                    self.h[i] ^= v[i] ^ v[i + 8];
                }
            }
            pub fn absorb(&mut self, m: &[u8]) {
                self.buf.extend_from_slice(m);
                let bb = 16 * $wb;
                if self.buf.len() > bb {
                    let buf = std::mem::take(&mut self.buf);
                    let n = (buf.len() - 1) / bb;
                    for i in 0..n {
                        self.t += bb as $ct;
                        self.f(&buf[bb * i..bb * i + bb], false);
                    }
                    self.buf = buf[bb * n..].to_vec();
                }
            }
            pub fn finish(mut self) -> Vec<u8> {
                self.t += self.buf.len() as $ct;
                let mut b = std::mem::take(&mut self.buf);
                b.resize(16 * $wb, 0);
                self.f(&b, true);
                let mut o: Vec<u8> = self.h.iter().flat_map(|w| w.to_le_bytes().to_vec()).collect();
                o.truncate(self.nn);
                o
            }
        }
    };
}
blake!(B2b, u64, u128, 8, 12, [32, 24, 16, 63], [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179]);
blake!(B2s, u32, u64, 4, 10, [16, 12, 8, 7], [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19]);

/// which hash, with its configuration
#[derive(Clone, Debug)]
pub enum Alg {
    Md5,
    Sha1,
    B2b(Vec<u8>, usize),
    B2s(Vec<u8>, usize),
}
impl Alg {
    pub fn hash(&self, m: &[u8]) -> Vec<u8> {
        match self {
            Alg::Md5 => md5(m),
            Alg::Sha1 => sha1(m),
            Alg::B2b(k, n) => {
                let mut s = B2b::new(k, *n);
                s.absorb(m);
                s.finish()
            }
            Alg::B2s(k, n) => {
                let mut s = B2s::new(k, *n);
                s.absorb(m);
                s.finish()
            }
        }
    }
    pub fn block(&self) -> usize {
        if let Alg::B2b(..) = self { 128 } else { 64 }
    }
    pub fn out(&self) -> usize {
        match self {
            Alg::Md5 => 16,
            Alg::Sha1 => 20,
            Alg::B2b(_, n) | Alg::B2s(_, n) => *n,
        }
    }
    pub fn hmac(&self, key: &[u8], m: &[u8]) -> Vec<u8> {
        let b = self.block();
        let mut k = if key.len() > b { self.hash(key) } else { key.to_vec() };
        k.resize(b, 0);
        let mut i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
        i.extend_from_slice(m);
        let mut o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
        o.extend_from_slice(&self.hash(&i));
        self.hash(&o)
    }
    pub fn hkdf(&self, salt: &[u8], ikm: &[u8], l: usize, info: &[u8]) -> Vec<u8> {
        let prk = self.hmac(salt, ikm);
        let mut okm = vec![];
        let mut t: Vec<u8> = vec![];
        let mut i = 1u8;
        while okm.len() < l {
            let mut x = t.clone();
            x.extend_from_slice(info);
            x.push(i);
            t = self.hmac(&prk, &x);
            okm.extend_from_slice(&t);
            i = i.wrapping_add(1);
        }
        okm.truncate(l);
        okm
    }
}
