//! Naturals as little-endian base 256 digit strings, computed by hand: the reference for the contracts
//! assumed of num-bigint (it shares no code with it).
pub type N = Vec<u8>;
pub fn trim(mut a: N) -> N {
    while a.last() == Some(&0) {
        a.pop();
    }
    a
}
pub fn cmp(a: &N, b: &N) -> std::cmp::Ordering {
    let (a, b) = (trim(a.clone()), trim(b.clone()));
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
pub fn add(a: &N, b: &N) -> N {
    let (mut r, mut c) = (vec![], 0u32);
    for i in 0..a.len().max(b.len()) + 1 {
        c += *a.get(i).unwrap_or(&0) as u32 + *b.get(i).unwrap_or(&0) as u32;
        r.push(c as u8);
        c >>= 8;
    }
    trim(r)
}
/// a - b for a >= b
pub fn sub(a: &N, b: &N) -> N {
    let (mut r, mut c) = (vec![], 0i32);
    for i in 0..a.len() {
        c += a[i] as i32 - *b.get(i).unwrap_or(&0) as i32;
        r.push(c as u8);
        c >>= 8;
    }
    trim(r)
}
pub fn mul(a: &N, b: &N) -> N {
    let mut r = vec![0u8; a.len() + b.len() + 1];
    for i in 0..a.len() {
        let mut c = 0u32;
        for j in 0..b.len() + 1 {
            c += r[i + j] as u32 + a[i] as u32 * *b.get(j).unwrap_or(&0) as u32;
            r[i + j] = c as u8;
            c >>= 8;
        }
    }
    trim(r)
}
/// bit by bit
pub fn divrem(a: &N, b: &N) -> (N, N) {
    let (mut q, mut r) = (vec![0u8; a.len()], vec![]);
    for i in (0..a.len() * 8).rev() {
        r = add(&r, &r);
        if a[i / 8] >> (i % 8) & 1 == 1 {
            r = add(&r, &vec![1]);
        }
        if cmp(&r, b) != std::cmp::Ordering::Less {
            r = sub(&r, b);
            q[i / 8] |= 1 << (i % 8);
        }
    }
    (trim(q), r)
}
pub fn powmod(a: &N, e: &N, m: &N) -> N {
    let mut r = divrem(&vec![1], m).1;
    for i in (0..e.len() * 8).rev() {
        r = divrem(&mul(&r, &r), m).1;
        if e[i / 8] >> (i % 8) & 1 == 1 {
            r = divrem(&mul(&r, a), m).1;
        }
    }
    r
}
/// what a digit string denotes: Horner's rule
pub fn parse(s: &str, radix: u32) -> N {
    let mut r = vec![];
    for c in s.chars() {
        r = add(&mul(&r, &vec![radix as u8]), &trim(vec![c.to_digit(radix).unwrap() as u8]));
    }
    r
}
