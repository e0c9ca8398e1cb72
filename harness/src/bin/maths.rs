//! M01..M06, E01, E02: prime fields, Diffie-Hellman, RSA
#![allow(clippy::all)]
#![recursion_limit = "512"]
use harness::refmath::*;
use harness::run::*;
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_encryption::rsa::*;
use jester_encryption::AsymmetricalEncryptionScheme;
use jester_maths::prime::*;
use jester_maths::prime_fields;
use mashup::*;
use num::{BigInt, BigUint, FromPrimitive, Integer, Num, One, ToPrimitive, Zero};
use num_bigint::RandBigInt;

prime_fields!(pub P2("2", 10), pub P5("5", 10), pub P11("11", 10), pub P13("D", 16), pub P127("1111111", 2), pub P251("251", 10), pub P64("18446744073709551557", 10), pub P32("FFFFFFFB", 16), pub P65("36893488147419103363", 10), pub P128("340282366920938463463374607431768211507", 10));

pub trait Fld: PrimeField + PartialEq + PartialOrd + Into<BigUint> + 'static {
    fn parse(s: &str, r: u32) -> Option<Self>;
}
impl<T: PrimeField + PartialEq + PartialOrd + Into<BigUint> + 'static> Fld for T {
    fn parse(s: &str, r: u32) -> Option<T> {
        <T as Num>::from_str_radix(s, r).ok()
    }
}
fn el<F: Fld>(x: &BigUint) -> F {
    x.clone().into()
}
fn up<F: Fld>(x: &F) -> BigUint {
    x.as_uint()
}
fn ck(what: &str, args: &[&BigUint], p: &BigUint, got: &BigUint, want: &BigUint) -> Result<(), String> {
    alive();
    if got == want && got < p {
        return Ok(());
    }
    let a: Vec<String> = args.iter().map(|x| x.to_str_radix(10)).collect();
    Err(format!("{}({}) modulo {} gave {} instead of {}", what, a.join(", "), p, got, want))
}
/// calls outside what any property promises
fn disturb(_: &str, g: &mut Rng) {
    fn on<F: Fld>(g: &mut Rng) {
        let p = F::field_prime().as_uint();
        let (a, z) = (el::<F>(&below(g, &p)), F::zero());
        let long = g.bytes(400);
        let n = g.range(0, 20);
        let junk: String = (0..n).map(|_| *g.pick(&['0', '7', 'g', 'Z', '-', '_', ' ', 'é'])).collect();
        let radix = *g.pick(&[2u32, 10, 16, 36]);
        match g.below(9) {
            8 => {
                let k = g.below(2);
                let mut rng = Failing(TestRng::new(g), k);
                try_call(|| F::generate_random_member(&mut rng))
            }
            0 => try_call(|| z.inverse()),
            1 => try_call(|| a.modpow(&a, &F::zero())),
            2 => try_call(|| F::parse(&junk, radix)),
            3 => try_call(|| F::from_bytes_le(&long)),
            4 => try_call(|| F::from_bytes_be(&long)),
            5 => try_call(|| F::from_i64(-(n as i64))),
            6 => try_call(|| RSACryptoSystem::<F>::encrypt_message(&RSAPublicKey::<F> { e: el(&big(3)), n: el(&big(15)) }, &long)),
            _ => try_call(|| RSACryptoSystem::<F>::decrypt_message(&RSAPrivateKey::<F> { d: el(&big(3)), n: el(&big(15)) }, &long)),
        }
    }
    for _ in 0..g.range(1, 2) {
        match g.below(4) {
            0 => on::<P11>(g),
            1 => on::<P251>(g),
            2 => on::<P64>(g),
            _ => on::<Mersenne127>(g),
        }
    }
}
/// run `$f` for every field type
macro_rules! each {
    ($r:ident, $f:ident) => {{
        $f::<Mersenne2>($r, "Mersenne2"); $f::<Mersenne3>($r, "Mersenne3"); $f::<Mersenne5>($r, "Mersenne5"); $f::<Mersenne13>($r, "Mersenne13");
        $f::<Mersenne17>($r, "Mersenne17"); $f::<Mersenne19>($r, "Mersenne19"); $f::<Mersenne31>($r, "Mersenne31"); $f::<Mersenne61>($r, "Mersenne61");
        $f::<Mersenne89>($r, "Mersenne89"); $f::<Mersenne107>($r, "Mersenne107"); $f::<Mersenne127>($r, "Mersenne127");
        $f::<P2>($r, "P2"); $f::<P5>($r, "P5"); $f::<P11>($r, "P11"); $f::<P13>($r, "P13"); $f::<P127>($r, "P127"); $f::<P251>($r, "P251"); $f::<P32>($r, "P32"); $f::<P64>($r, "P64"); $f::<P65>($r, "P65"); $f::<P128>($r, "P128");
        $f::<IetfGroup1>($r, "IetfGroup1"); $f::<IetfGroup2>($r, "IetfGroup2"); $f::<IetfGroup3>($r, "IetfGroup3");
    }};
}
fn prime_of(name: &str) -> Option<BigUint> {
    let one = BigUint::one();
    if let Some(k) = name.strip_prefix("Mersenne") {
        return Some((one << k.parse::<usize>().unwrap()) - BigUint::one());
    }
    Some(match name {
        "P2" => big(2), "P5" => big(5), "P11" => big(11), "P13" => big(13), "P127" => big(127), "P251" => big(251), "P32" => big(4294967291), "P64" => big(18446744073709551557),
        "P65" => (one << 65usize) - big(0) + big(131), "P128" => (one << 128usize) + big(51),
        _ => return None,
    })
}
/// the modulus a field reports is the prime its definition names
fn modulus<F: Fld>(r: &mut Runner, n: &str) {
    r.case(&format!("modulus/{}", n), |g| {
        let p = up(&F::field_prime());
        if let Some(w) = prime_of(n) {
            if p != w {
                return Err(format!("{} has modulus {} instead of {}", n, p, w));
            }
        }
        if !is_prime(&p, g) {
            return Err(format!("the modulus {} of {} is not prime", p, n));
        }
        let bits = match n { "IetfGroup1" => 1024, "IetfGroup2" | "IetfGroup3" => 2048, _ => p.bits() };
        if p.bits() != bits { return Err(format!("{} has a {} bit modulus", n, p.bits())); }
        Ok(())
    });
}
fn arith_pair<F: Fld>(a: &BigUint, b: &BigUint, p: &BigUint) -> Result<(), String> {
    let (x, y): (F, F) = (el(a), el(b));
    let s = [a, b];
    ck("add", &s, p, &up(&(x.clone() + y.clone())), &((a + b) % p))?;
    ck("sub", &s, p, &up(&(x.clone() - y.clone())), &md(BigInt::from(a.clone()) - BigInt::from(b.clone()), p))?;
    ck("mul", &s, p, &up(&(x.clone() * y.clone())), &((a * b) % p))?;
    if (x == y) != (a == b) {
        return Err(format!("equality of {} and {} modulo {}", a, b, p));
    }
    Ok(())
}
fn arith<F: Fld>(r: &mut Runner, n: &str) {
    modulus::<F>(r, n);
    let p = up(&F::field_prime());
    let deep = r.deep;
    r.case(&format!("neutral/{}", n), |g| {
        if !up(&F::zero()).is_zero() || !F::zero().is_zero() || F::one().is_zero() || up(&F::one()) != BigUint::one() {
            return Err("zero or one".into());
        }
        for a in edges(&p, g, 8) {
            let x: F = el(&a);
            ck("a+0", &[&a], &p, &up(&(x.clone() + F::zero())), &a)?;
            ck("0+a", &[&a], &p, &up(&(F::zero() + x.clone())), &a)?;
            ck("a-0", &[&a], &p, &up(&(x.clone() - F::zero())), &a)?;
            ck("0-a", &[&a], &p, &up(&(F::zero() - x.clone())), &((&p - &a) % &p))?;
            ck("a*1", &[&a], &p, &up(&(x.clone() * F::one())), &a)?;
            ck("1*a", &[&a], &p, &up(&(F::one() * x.clone())), &a)?;
            if x.is_zero() != a.is_zero() { return Err(format!("is_zero({})", a)); }
        }
        Ok(())
    });
    r.case(&format!("pairs/{}", n), |g| {
        let e = edges(&p, g, if p.bits() > 500 { 4 } else { 12 });
        for a in &e {
            for b in &e {
                arith_pair::<F>(a, b, &p)?;
            }
        }
        Ok(())
    });
    r.case(&format!("near/{}", n), |g| {
        // operands whose sum, difference or product is next to a multiple of the modulus
        for _ in 0..(if deep { 2000 } else { 200 }) {
            let a = below(g, &p);
            for d in 0..3u64 {
                let c = (&p * big(2) - &a + big(d)) % &p;
                arith_pair::<F>(&a, &c, &p)?;
                arith_pair::<F>(&c, &a, &p)?;
                arith_pair::<F>(&a, &((&a + big(d)) % &p), &p)?;
                arith_pair::<F>(&((&a + big(d)) % &p), &a, &p)?;
                if let Some(i) = inv(&a, &p) { arith_pair::<F>(&a, &(&i * big(d) % &p), &p)?; }
            }
        }
        Ok(())
    });
    r.case(&format!("folds/{}", n), |g| {
        for k in [0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257, 1000] {
            if p.bits() > 500 && k > 64 && !deep { continue; }
            for t in 0..3 {
                let v: Vec<BigUint> = (0..k).map(|_| if t == 0 { &p - BigUint::one() } else if t == 1 { let x = below(g, &p); if x.is_zero() { BigUint::one() } else { x } } else { below(g, &p) }).collect();
                let s: F = v.iter().map(|x| el::<F>(x)).sum();
                let m: F = v.iter().map(|x| el::<F>(x)).product();
                // the same elements from iterators that know less, or something else, about how many there are
                if k < 34 || p.bits() < 70 {
                    let (cut, odd) = (g.range(0, k), g.range(0, k));
                    let mut at = 0;
                    let mut next = || { at += 1; v.get(at - 1).map(|x| el::<F>(x)) };
                    let also: [(&str, F, F); 7] = [
                        ("filter", v.iter().filter(|_| true).map(|x| el::<F>(x)).sum(), v.iter().filter(|_| true).map(|x| el::<F>(x)).product()),
                        ("chain", v[..cut].iter().map(|x| el::<F>(x)).chain(v[cut..].iter().filter(|_| true).map(|x| el::<F>(x))).sum(), v[..cut].iter().map(|x| el::<F>(x)).chain(v[cut..].iter().filter(|_| true).map(|x| el::<F>(x))).product()),
                        ("take_while", v.iter().take_while(|_| true).map(|x| el::<F>(x)).sum(), v.iter().skip_while(|_| false).map(|x| el::<F>(x)).product()),
                        ("flat_map", v.chunks(3).flat_map(|c| c.iter().map(|x| el::<F>(x))).sum(), v.chunks(4).flat_map(|c| c.iter().map(|x| el::<F>(x))).product()),
                        ("rev", v.iter().rev().map(|x| el::<F>(x)).sum(), v.iter().rev().map(|x| el::<F>(x)).product()),
                        ("from_fn", std::iter::from_fn(&mut next).sum(), v.iter().cycle().take(k).map(|x| el::<F>(x)).product()),
                        // as many that are dropped as are kept
                        ("filter of twice as many", v.iter().chain(v.iter()).enumerate().filter(|(i, _)| *i < k).map(|(_, x)| el::<F>(x)).sum(), v[..odd].iter().map(|x| el::<F>(x)).chain(v[odd..].iter().chain(v.iter()).enumerate().filter(|(i, _)| *i < k - odd).map(|(_, x)| el::<F>(x))).product()),
                    ];
                    for (what, s2, m2) in &also {
                        ck(&format!("sum of {} elements ({})", k, what), &v.iter().take(6).collect::<Vec<_>>(), &p, &up(s2), &v.iter().fold(BigUint::zero(), |a, x| (a + x) % &p))?;
                        ck(&format!("product of {} elements ({})", k, what), &v.iter().take(6).collect::<Vec<_>>(), &p, &up(m2), &v.iter().fold(BigUint::one(), |a, x| a * x % &p))?;
                    }
                    // half as many at least as at most
                    let half = v[..k / 2].iter().map(|x| el::<F>(x)).chain(v[k / 2..k / 2 * 2].iter().filter(|_| true).map(|x| el::<F>(x)));
                    ck(&format!("sum of {} elements (half)", k / 2 * 2), &[], &p, &up(&half.sum::<F>()), &v[..k / 2 * 2].iter().fold(BigUint::zero(), |a, x| (a + x) % &p))?;
                    let half = v[..k / 2].iter().map(|x| el::<F>(x)).chain(v[k / 2..k / 2 * 2].iter().filter(|_| true).map(|x| el::<F>(x)));
                    ck(&format!("product of {} elements (half)", k / 2 * 2), &[], &p, &up(&half.product::<F>()), &v[..k / 2 * 2].iter().fold(BigUint::one(), |a, x| a * x % &p))?;
                }
                ck(&format!("sum of {} elements", k), &v.iter().take(6).collect::<Vec<_>>(), &p, &up(&s), &v.iter().fold(BigUint::zero(), |a, x| (a + x) % &p))?;
                ck(&format!("product of {} elements", k), &v.iter().take(6).collect::<Vec<_>>(), &p, &up(&m), &v.iter().fold(BigUint::one(), |a, x| a * x % &p))?;
            }
        }
        Ok(())
    });
}
fn arith_more<F: Fld>(r: &mut Runner, n: &str) {
    let p = up(&F::field_prime());
    r.case(&format!("random/{}", n), |g| {
        for _ in 0..100 {
            arith_pair::<F>(&below(g, &p), &below(g, &p), &p)?;
            let (x, y) = (shaped(g, &p), if g.bool() { shaped(g, &p) } else { below(g, &p) });
            arith_pair::<F>(&x, &y, &p)?;
            arith_pair::<F>(&y, &x, &p)?;
        }
        Ok(())
    });
}
fn inverse<F: Fld>(r: &mut Runner, n: &str) {
    modulus::<F>(r, n);
    let p = up(&F::field_prime());
    let deep = r.deep;
    r.case(&format!("inverse/{}", n), |g| {
        let mut e = edges(&p, g, if p.bits() > 500 { 10 } else { 60 });
        if p.bits() <= 13 { e = (1..p.to_u64().unwrap()).map(big).collect(); }
        if p.bits() <= 17 && deep { e = (1..p.to_u64().unwrap()).map(big).collect(); }
        // elements with short or long Euclidean quotient sequences
        for k in 2..40u64 { e.push((&p / big(k)) % &p); e.push((&p / big(k) + big(1)) % &p); }
        for a in e.iter().filter(|x| !x.is_zero()) {
            let i = up(&el::<F>(a).inverse());
            if i >= p || &i * a % &p != BigUint::one() % &p {
                return Err(format!("inverse of {} modulo {} gave {}", a, p, i));
            }
        }
        Ok(())
    });
}
fn inverse_more<F: Fld>(r: &mut Runner, n: &str) {
    let p = up(&F::field_prime());
    r.case(&format!("random/{}", n), |g| {
        for _ in 0..(if p.bits() > 500 { 3 } else { 60 }) {
            let a = if g.bool() { shaped(g, &p) } else { below(g, &p) };
            if a.is_zero() { continue; }
            let i = up(&el::<F>(&a).inverse());
            if i >= p || &i * &a % &p != BigUint::one() % &p {
                return Err(format!("inverse of {} modulo {} gave {}", a, p, i));
            }
        }
        Ok(())
    });
}
fn conv<F: Fld>(r: &mut Runner, n: &str) {
    modulus::<F>(r, n);
    let p = up(&F::field_prime());
    r.case(&format!("integers/{}", n), |g| {
        let mut v = edges(&p, g, 10);
        for k in [8usize, 31, 32, 33, 63, 64, 65, 127, 128, 129, 500, 1024, 2048, 3000] {
            let x = BigUint::one() << k;
            v.push(x.clone());
            v.push(&x - big(1));
            v.push(&x + big(1));
            v.push(below(g, &x));
        }
        for k in 1..20u64 { for d in 0..3u64 { v.push(&p * big(k) + big(d)); v.push(&p * big(k) - big(1) - big(d).min(p.clone() - big(1))); } }
        v.push(&p * &p); v.push(&p * &p - big(1)); v.push(&p * &p + big(1));
        let wide = BigUint::one() << (p.bits() * 3 + 70);
        for _ in 0..40 { v.push(shaped(g, &p)); v.push(shaped(g, &wide)); }
        for x in &v {
            ck("from integer", &[x], &p, &up(&el::<F>(x)), &(x % &p))?;
            let b: BigUint = el::<F>(x).into();
            ck("into integer", &[x], &p, &b, &(x % &p))?;
        }
        Ok(())
    });
    r.case(&format!("machine/{}", n), |g| {
        let mut s: Vec<i64> = vec![0, 1, -1, 2, -2, i64::MAX, i64::MIN, i64::MIN + 1, i64::MAX - 1, i32::MAX as i64, i32::MIN as i64, i32::MIN as i64 - 1, u32::MAX as i64, -(u32::MAX as i64)];
        for k in 0..63 { s.push(1 << k); s.push(-(1 << k)); s.push((1i64 << k) - 1); s.push(-(1i64 << k) + 1); s.push(-(1i64 << k) - 1); }
        if let Some(q) = p.to_i64() { for k in 0..40i64 { for d in [-1i64, 0, 1] { if let Some(x) = q.checked_mul(k).and_then(|x| x.checked_add(d)) { s.push(x); s.push(-x); } } }
            let m = i64::MAX / q; for d in [-1i64, 0] { if let Some(x) = (m * q).checked_add(d) { s.push(x); s.push(-x); } } }
        for _ in 0..50 { s.push(g.u64() as i64); s.push((g.u64() as i64) >> g.range(1, 62)); }
        for x in s {
            let w = md(BigInt::from(x), &p);
            match F::from_i64(x) { Some(v) => if up(&v) != w { return Err(format!("from_i64({}) modulo {} gave {} instead of {}", x, p, up(&v), w)); }, None => return Err(format!("from_i64({}) modulo {} gave None", x, p)) }
        }
        let mut u: Vec<u64> = vec![0, 1, 2, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, u32::MAX as u64];
        for k in 0..64 { u.push(1 << k); u.push((1u64 << k) - 1); u.push((1u64 << k) + 1); }
        if let Some(q) = p.to_u64() { for k in 0..40u64 { for d in [0u64, 1, 2] { if let Some(x) = q.checked_mul(k).and_then(|x| x.checked_add(d)) { u.push(x); u.push(x.saturating_sub(2)); } } } }
        for _ in 0..50 { u.push(g.u64()); u.push(g.u64() >> g.range(1, 62)); }
        for x in u {
            match F::from_u64(x) { Some(v) => if up(&v) != big(x) % &p { return Err(format!("from_u64({}) modulo {} gave {}", x, p, up(&v))); }, None => return Err(format!("from_u64({}) modulo {} gave None", x, p)) }
        }
        Ok(())
    });
    r.case(&format!("strings/{}", n), |g| {
        for radix in 2..=36u32 {
            let mut v = vec![big(0), big(1), big(35), p.clone(), &p - big(1), &p + big(1), &p * big(3) + big(2), &p * &p, big(u64::MAX), BigUint::one() << 128usize];
            v.push(below(g, &(BigUint::one() << 600usize)));
            for x in v {
                let mut s = x.to_str_radix(radix);
                for t in 0..3 {
                    if t == 1 { s = s.to_uppercase(); }
                    if t == 2 { s = format!("000{}", s); }
                    match F::parse(&s, radix) { Some(e) => if up(&e) != &x % &p { return Err(format!("digits {} in radix {} modulo {} gave {}", s, radix, p, up(&e))); }, None => return Err(format!("digits {} in radix {} rejected", s, radix)) }
                }
            }
            // long strings of digits
            if p.bits() < 200 || radix % 6 == 4 {
                for n in [64usize, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025, 2000, 4096, 5000] {
                    let s: String = (0..n).map(|_| std::char::from_digit(g.below(radix as u64) as u32, radix).unwrap()).collect();
                    let want = s.chars().fold(BigUint::zero(), |a, c| (a * big(radix as u64) + big(c.to_digit(radix).unwrap() as u64)) % &p);
                    match F::parse(&s, radix) { Some(e) => if up(&e) != want { return Err(format!("digits {} in radix {} modulo {} gave {}", s, radix, p, up(&e))); }, None => return Err(format!("digits {} in radix {} rejected", s, radix)) }
                }
            }
            let bad = std::char::from_digit(radix - 1, radix).unwrap();
            for s in ["".to_string(), "-1".into(), "1 2".into(), " 1".into(), "1.5".into(), "1\u{e4}".into(), format!("{}!", bad), "+".into()] {
                if F::parse(&s, radix).is_some() { return Err(format!("{:?} accepted in radix {}", s, radix)); }
            }
            if radix < 36 {
                let over = std::char::from_digit(radix, 36).unwrap();
                for s in [format!("{}", over), format!("1{}", over), format!("{}1", over)] { if F::parse(&s, radix).is_some() { return Err(format!("{:?} accepted in radix {}", s, radix)); } }
            }
        }
        Ok(())
    });
}
fn le(b: &[u8]) -> BigUint {
    let mut x = BigUint::zero();
    for v in b.iter().rev() { x = (x << 8usize) + big(*v as u64); }
    x
}
fn bytes<F: Fld>(r: &mut Runner, n: &str) {
    modulus::<F>(r, n);
    let p = up(&F::field_prime());
    let dec = |b: &[u8], p: &BigUint| -> Result<(), String> {
        let mut rv = b.to_vec();
        rv.reverse();
        let v = le(b);
        for (o, got) in [("little", F::from_bytes_le(b)), ("big", F::from_bytes_be(&rv))] {
            match got {
                Some(x) => if v >= *p || up(&x) != v { return Err(format!("decoding {} ({} endian, value {}) modulo {} gave {}", hex(b), o, v, p, up(&x))); },
                None => if v < *p { return Err(format!("decoding {} ({} endian, value {}) modulo {} was rejected", hex(b), o, v, p)); },
            }
        }
        Ok(())
    };
    r.case(&format!("encode/{}", n), |g| {
        let mut v = edges(&p, g, 60);
        for _ in 0..200 { v.push(shaped(g, &p)); }
        for a in v {
            let x: F = el(&a);
            let (l, b) = (x.as_bytes_le(), x.as_bytes_be());
            let mut rb = b.clone();
            rb.reverse();
            if l != rb { return Err(format!("encodings of {} modulo {} are not reversals: {} and {}", a, p, hex(&l), hex(&b))); }
            if le(&l) != a { return Err(format!("encoding of {} modulo {} is {}", a, p, hex(&l))); }
            if F::from_bytes_le(&l).map(|y| up(&y)) != Some(a.clone()) || F::from_bytes_be(&b).map(|y| up(&y)) != Some(a.clone()) { return Err(format!("{} modulo {} does not round trip", a, p)); }
        }
        Ok(())
    });
    r.case(&format!("decode/{}", n), |g| {
        let w = p.bits() / 8 + 1;
        dec(&[], &p)?;
        let wide = BigUint::one() << (8 * w + 8);
        for k in 0..200 { let mut b = shaped(g, if k % 4 == 0 { &wide } else { &p }).to_bytes_le(); if k % 3 == 0 { b.extend(vec![0; k % 7]); } if k % 5 == 0 { while b.last() == Some(&0) { b.pop(); } } dec(&b, &p)?; }
        for k in 0..3u64 { for pad in 0..4 { for x in [&p + big(k), &p - big(1) - big(k).min(&p - big(1)), &p * big(2) + big(k), &p * big(256) + big(k), BigUint::one() << (8 * w)] { let mut b = x.to_bytes_le(); b.extend(vec![0; pad * pad]); dec(&b, &p)?; } } }
        for _ in 0..60 { let k = g.range(0, w + 2); let mut b = g.bytes(k); if g.bool() && k > 0 { b[k - 1] = 0; } dec(&b, &p)?; let mut b = below(g, &p).to_bytes_le(); b.resize(w, 0); dec(&b, &p)?; }
        // any amount of padding behind values of any width
        for pad in [7usize, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1024, 4096, 5000, 65536, 70000] {
            for x in [&p - big(1), below(g, &p), shaped(g, &p), p.clone(), big(0), big(1)] { let mut b = x.to_bytes_le(); b.extend(vec![0; pad]); dec(&b, &p)?; }
        }
        // an encoding that agrees with the modulus on a suffix
        for i in 0..w { let mut b = p.to_bytes_le(); b.resize(w, 0); b[i] = b[i].wrapping_add(1); dec(&b, &p)?; b[i] = b[i].wrapping_sub(2); dec(&b, &p)?; }
        Ok(())
    });
}
fn powers<F: Fld>(r: &mut Runner, n: &str) {
    modulus::<F>(r, n);
    let p = up(&F::field_prime());
    let deep = r.deep;
    r.case(&format!("pow/{}", n), |g| {
        let mut e = edges(&p, g, 4);
        let mut x = edges(&p, g, 4);
        if p.bits() > 500 { let c = if deep { 24 } else { 12 }; while e.len() > c { let i = g.range(2, e.len() - 1); e.remove(i); } let c = if deep { 16 } else { 8 }; while x.len() > c { let i = g.range(2, x.len() - 1); x.remove(i); } }
        else if p.bits() > 61 { while e.len() > 25 && !deep { let i = g.range(4, e.len() - 1); e.remove(i); } }
        for _ in 0..(if p.bits() > 500 { 3 } else { 40 }) {
            let (a, b) = (shaped(g, &p), shaped(g, &p));
            ck("pow", &[&a, &b], &p, &up(&el::<F>(&a).pow(&el::<F>(&b))), &powmod(&a, &b, &p))?;
        }
        for a in &x { for b in &e { ck("pow", &[a, b], &p, &up(&el::<F>(a).pow(&el::<F>(b))), &powmod(a, b, &p))?; } }
        Ok(())
    });
    if p.bits() < 140 {
        r.case(&format!("exponents/{}", n), |g| {
            for k in 0..p.bits() {
                let one = big(1) << k;
                for e in [one.clone(), &one + big(1), &one - big(1), &one + (&one >> 1usize), &one + (big(1) << (k / 2)), big(2) * &one - big(2)] {
                    if e >= p { continue; }
                    // moduli of the same kind
                    for m in [one.clone(), big(2) * &one - big(1), &one + big(1), &one + (&one >> 1usize), below(g, &one) * big(2) + big(2)] {
                        for (a, e) in [(below(g, &p), e.clone()), (below(g, &p) >> 1usize << 1usize, e.clone()), (big(2), &p - big(2)), (below(g, &p) >> 1usize << 1usize, &m + big(3)), (big(6), (&m >> 2usize) + big(3)), (&m >> 1usize, &m - big(1))] {
                            if m < p && a < p && e < p && !m.is_zero() { ck("modpow", &[&a, &e, &m], &p, &up(&el::<F>(&a).modpow(&el::<F>(&e), &el::<F>(&m))), &powmod(&a, &e, &m))?; }
                        }
                    }
                    let (a, m) = (below(g, &p), below(g, &(&p - big(1))) + big(1));
                    ck("pow", &[&a, &e], &p, &up(&el::<F>(&a).pow(&el::<F>(&e))), &powmod(&a, &e, &p))?;
                    ck("modpow", &[&a, &e, &m], &p, &up(&el::<F>(&a).modpow(&el::<F>(&e), &el::<F>(&m))), &powmod(&a, &e, &m))?;
                }
            }
            Ok(())
        });
    }
    r.case(&format!("modpow/{}", n), |g| {
        let mut e = edges(&p, g, 2);
        let cap = match (p.bits() > 500, deep) { (true, false) => 5, (true, true) => 8, (false, false) => 12, _ => 40 };
        while e.len() > cap { let i = g.range(3, e.len() - 1); e.remove(i); }
        for _ in 0..(if p.bits() > 500 { 3 } else { 40 }) {
            let (a, b, m) = (shaped(g, &p), shaped(g, &p), shaped(g, &p));
            if m.is_zero() { continue; }
            ck("modpow", &[&a, &b, &m], &p, &up(&el::<F>(&a).modpow(&el::<F>(&b), &el::<F>(&m))), &powmod(&a, &b, &m))?;
        }
        let mut ms = e.clone();
        ms.push(&p - big(1));
        ms.push((&p - big(1)) >> 1usize);
        for a in &e { for b in &e { for m in ms.iter().filter(|m| !m.is_zero()) {
            let got = up(&el::<F>(a).modpow(&el::<F>(b), &el::<F>(m)));
            ck("modpow", &[a, b, m], &p, &got, &powmod(a, b, m))?;
        } 
            ck("modpow with the prime", &[a, b], &p, &up(&el::<F>(a).modpow(&el::<F>(b), &F::field_prime())), &powmod(a, b, &p))?;
        } }
        Ok(())
    });
}
/// starts with the given number of all-ones words
#[derive(Clone)]
struct Biased(TestRng, u64);
impl rand::RngCore for Biased {
    fn next_u32(&mut self) -> u32 { if self.1 > 0 { self.1 -= 1; return !0; } self.0.next_u32() }
    fn next_u64(&mut self) -> u64 { (self.next_u32() as u64) | (self.next_u32() as u64) << 32 }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for c in dest.chunks_mut(4) { let v = self.next_u32().to_le_bytes(); let n = c.len(); c.copy_from_slice(&v[..n]); } }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(dest); Ok(()) }
}
impl rand::CryptoRng for Biased {}
fn random_member<F: Fld>(r: &mut Runner, n: &str) {
    modulus::<F>(r, n);
    let p = up(&F::field_prime());
    r.case(&format!("member/{}", n), |g| {
        for _ in 0..200 {
            let mut t = TestRng::new(g);
            let mut u = t.clone();
            let x = up(&F::generate_random_member(&mut t));
            let w = u.gen_biguint_below(&p);
            if x >= p { return Err(format!("random member {} of the field modulo {}", x, p)); }
            if x != w || t.1 != u.1 { return Err(format!("random member modulo {} is {} and not the one uniform draw {} below the prime", p, x, w)); }
        }
        Ok(())
    });
    // a source whose first outputs are all above the prime: every one of them is passed over
    r.case(&format!("rejected/{}", n), |g| {
        for k in (0..40).chain([50u64, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 5000].iter().copied()) {
            let mut t = Biased(TestRng::new(g), k * ((p.bits() as u64 + 31) / 32));
            let mut u = t.clone();
            let x = up(&F::generate_random_member(&mut t));
            let w = u.gen_biguint_below(&p);
            if x != w || x >= p { return Err(format!("random member modulo {} is {} and not the uniform draw {} below the prime, when the first {} draws are all ones", p, x, w, k)); }
        }
        Ok(())
    });
    if p.bits() <= 8 {
        r.case(&format!("frequency/{}", n), |g| {
            let q = p.to_u64().unwrap() as usize;
            let mut c = vec![0u64; q];
            let mut t = TestRng::new(g);
            let m = 1000 * q as u64;
            for _ in 0..m { c[up(&F::generate_random_member(&mut t)).to_u64().unwrap() as usize] += 1; }
            for (i, k) in c.iter().enumerate() { if *k < 700 || *k > 1300 { return Err(format!("{} was drawn {} times in {} draws modulo {}", i, k, m, q)); } }
            Ok(())
        });
    }
}
/// operands that agree in their low or high words, in varying order, repeatedly and in several threads: no computation depends on an earlier or concurrent one
fn state<F: Fld>(r: &mut Runner, n: &str, op: fn(&BigUint, &BigUint, &BigUint) -> Result<(), String>) {
    let p = up(&F::field_prime());
    let large = p.bits() > 500;
    r.case(&format!("alike/{}", n), |g| {
        for _ in 0..(if large { 1 } else { 3 }) {
            let a = below(g, &p);
            let mut v = vec![a.clone()];
            for k in [8usize, 16, 31, 32, 63, 64, 96, 127, 128, 1023] {
                if k >= p.bits() || (large && k < 63) { continue; }
                let m = BigUint::one() << k;
                v.push((&a + &m) % &p);
                v.push(&a % &m);
                v.push(&a >> k);
                if !large { v.push((&a + &m * big(2)) % &p); v.push((&p - &m + &a) % &p); }
            }
            for _ in 0..2 {
                for i in (1..v.len()).rev() { let j = g.range(0, i); v.swap(i, j); }
                for i in 0..v.len() { op(&v[i], &v[(i + 1) % v.len()], &p)?; op(&v[i], &v[i], &p)?; }
            }
        }
        Ok(())
    });
    r.case(&format!("threads/{}", n), |g| {
        let v: Vec<Vec<BigUint>> = (0..4).map(|_| (0..if large { 2 } else { 24 }).map(|_| below(g, &p)).collect()).collect();
        let out: Vec<Result<(), String>> = std::thread::scope(|s| {
            let hs: Vec<_> = v.iter().map(|w| { let p = &p; s.spawn(move || { for i in 0..w.len() { op(&w[i], &w[(i + 1) % w.len()], p)?; } Ok(()) }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked in a thread".into()))).collect()
        });
        out.into_iter().map(|x| x.map_err(|e| format!("with four threads: {}", e))).collect()
    });
}
fn st_arith<F: Fld>(r: &mut Runner, n: &str) { state::<F>(r, n, arith_pair::<F>) }
fn st_inverse<F: Fld>(r: &mut Runner, n: &str) {
    state::<F>(r, n, |a, _, p| {
        if a.is_zero() { return Ok(()); }
        let i = up(&el::<F>(a).inverse());
        alive();
        if i >= *p || &i * a % p != BigUint::one() % p { return Err(format!("inverse of {} modulo {} gave {}", a, p, i)); }
        Ok(())
    })
}
fn st_conv<F: Fld>(r: &mut Runner, n: &str) {
    state::<F>(r, n, |a, b, p| {
        let x = a * p + b;
        ck("from integer", &[&x], p, &up(&el::<F>(&x)), &(&x % p))?;
        ck("from digits", &[&x], p, &F::parse(&x.to_str_radix(10), 10).map_or(p.clone(), |v| up(&v)), &(&x % p))
    })
}
fn st_bytes<F: Fld>(r: &mut Runner, n: &str) {
    state::<F>(r, n, |a, b, p| {
        for x in [a, b] {
            let (l, be) = (el::<F>(x).as_bytes_le(), el::<F>(x).as_bytes_be());
            ck("little endian round trip", &[x], p, &F::from_bytes_le(&l).map_or(p.clone(), |v| up(&v)), x)?;
            ck("big endian round trip", &[x], p, &F::from_bytes_be(&be).map_or(p.clone(), |v| up(&v)), x)?;
        }
        Ok(())
    })
}
fn st_powers<F: Fld>(r: &mut Runner, n: &str) {
    state::<F>(r, n, |a, b, p| {
        if p.bits() > 500 { let b = b % big(1 << 40); return ck("pow", &[a, &b], p, &up(&el::<F>(a).pow(&el::<F>(&b))), &powmod(a, &b, p)); }
        ck("pow", &[a, b], p, &up(&el::<F>(a).pow(&el::<F>(b))), &powmod(a, b, p))?;
        if b.is_zero() { return Ok(()); }
        ck("modpow", &[b, a, b], p, &up(&el::<F>(b).modpow(&el::<F>(a), &el::<F>(b))), &powmod(b, a, b))
    })
}
fn st_dh<F: Fld>(r: &mut Runner, n: &str) where F: DiffieHellmanKeyExchangeScheme<PublicKey = F, PrivateKey = F, SharedKey = F> {
    state::<F>(r, n, |a, b, p| {
        let b = if p.bits() > 500 { b % big(1 << 40) } else { b.clone() };
        ck("shared secret (private key, partner key)", &[&b, a], p, &up(&F::generate_shared_secret(&el(&b), &el(a))), &powmod(a, &b, p))
    })
}
fn dh<F: Fld>(r: &mut Runner, n: &str) where F: DiffieHellmanKeyExchangeScheme<PublicKey = F, PrivateKey = F, SharedKey = F> {
    modulus::<F>(r, n);
    let p = up(&F::field_prime());
    r.case(&format!("keys/{}", n), |g| {
        for a in (if p.bits() > 500 { vec![big(2), &p - big(1), below(g, &p)] } else { edges(&p, g, 6) }) {
            let gen: F = el(&a);
            let mut t = TestRng::new(g);
            let (k1, p1) = F::generate_asymmetrical_key_pair(&mut t, &gen);
            let (k2, p2) = F::generate_asymmetrical_key_pair(&mut t, &gen);
            if up(&k1) >= p || up(&k2) >= p { return Err("private key out of range".into()); }
            ck("public key", &[&a, &up(&k1)], &p, &up(&p1), &powmod(&a, &up(&k1), &p))?;
            ck("public key", &[&a, &up(&k2)], &p, &up(&p2), &powmod(&a, &up(&k2), &p))?;
            let (s1, s2) = (F::generate_shared_secret(&k1, &p2), F::generate_shared_secret(&k2, &p1));
            let w = powmod(&a, &(up(&k1) * up(&k2)), &p);
            ck("first shared secret", &[&a, &up(&k1), &up(&k2)], &p, &up(&s1), &w)?;
            ck("second shared secret", &[&a, &up(&k1), &up(&k2)], &p, &up(&s2), &w)?;
        }
        Ok(())
    });
    r.case(&format!("secrets/{}", n), |g| {
        let mut v = edges(&p, g, 3);
        let cap = if p.bits() > 500 { 5 } else { 14 };
        while v.len() > cap { let i = g.range(3, v.len() - 1); v.remove(i); }
        for _ in 0..(if p.bits() > 500 { 1 } else { 4 }) { v.push(shaped(g, &p)); }
        for a in &v { for k1 in &v { for k2 in &v {
            if p.bits() > 500 && g.below(4) != 0 { continue; }
            let (p1, p2) = (powmod(a, k1, &p), powmod(a, k2, &p));
            let (s1, s2) = (F::generate_shared_secret(&el(k1), &el(&p2)), F::generate_shared_secret(&el(k2), &el(&p1)));
            let w = powmod(a, &(k1 * k2), &p);
            ck("first shared secret", &[a, k1, k2], &p, &up(&s1), &w)?;
            ck("second shared secret", &[a, k1, k2], &p, &up(&s2), &w)?;
        } } }
        Ok(())
    });
}
fn rsa_one<F: Fld>(m: &BigUint, e: &BigUint, d: &BigUint, n: &BigUint, pad: usize) -> Result<(), String> {
    let pk = RSAPublicKey::<F> { e: el(e), n: el(n) };
    let sk = RSAPrivateKey::<F> { d: el(d), n: el(n) };
    let mut mb = m.to_bytes_le();
    mb.extend(vec![0; pad]);
    let c = RSACryptoSystem::<F>::encrypt_message(&pk, &mb);
    if le(&c) != powmod(m, e, n) { return Err(format!("encrypting {} with exponent {} modulo {} gave {}", m, e, n, le(&c))); }
    let x = RSACryptoSystem::<F>::decrypt_message(&sk, &c);
    if le(&x) != powmod(&le(&c), d, n) { return Err(format!("decrypting {} with exponent {} modulo {} gave {}", le(&c), d, n, le(&x))); }
    if le(&x) != *m { return Err(format!("message {} became {} (e {} d {} n {})", m, le(&x), e, d, n)); }
    Ok(())
}
fn rsa_keys(g: &mut Rng, q1: &BigUint, q2: &BigUint, e: Option<u64>) -> Option<(BigUint, BigUint)> {
    let l = (q1 - big(1)).lcm(&(q2 - big(1)));
    for _ in 0..50 {
        let e = match e { Some(e) => big(e), None => below(g, &l) };
        if let Some(d) = inv(&e, &l) { if !e.is_zero() && !d.is_zero() { return Some((e, d)); } }
    }
    None
}
fn rsa(r: &mut Runner) {
    let small = [2u64, 3, 5, 7, 11, 13, 17, 19, 23];
    for (i, a) in small.iter().enumerate() {
        for b in small.iter().skip(i + 1) {
            r.case(&format!("small/{}x{}", a, b), |g| {
                let n = big(a * b);
                for k in 0..3 {
                    if let Some((e, d)) = rsa_keys(g, &big(*a), &big(*b), None) {
                        for m in 0..a * b {
                            rsa_one::<Mersenne13>(&big(m), &e, &d, &n, k)?;
                            if k == 0 { rsa_one::<Mersenne61>(&big(m), &e, &d, &n, k)?; }
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // what each direction computes, for any message the group can hold (also one that is not below the modulus) and any key
    fn values<F: Fld>(r: &mut Runner, name: &str, reps: usize) {
        let p = up(&F::field_prime());
        for k in 0..reps {
            r.case(&format!("values/{}/{}", name, k), |g| {
                let n = match g.below(6) { 5 => shaped(g, &(&p - big(1))) + big(1), 0 => big(1 + g.below(40)), 1 => &p - big(1), 2 => below(g, &p.sqrt()) + big(1), _ => below(g, &(&p - big(1))) + big(1) };
                let e = match g.below(5) { 4 => shaped(g, &p), 0 => big(g.below(4)), 1 => &n % &p, _ => below(g, &p) };
                for m in [big(0), big(1), big(2), &n - big(1), n.clone(), &n + big(1), &n * big(2), &n * big(2) + big(1), &p - big(1), below(g, &p), below(g, &n), shaped(g, &p), shaped(g, &p), shaped(g, &n), shaped(g, &n)] {
                    if m >= p { continue; }
                    let want = powmod(&m, &e, &n);
                    let mut mb = m.to_bytes_le();
                    mb.extend(vec![0; g.range(0, 3)]);
                    let c = RSACryptoSystem::<F>::encrypt_message(&RSAPublicKey::<F> { e: el(&e), n: el(&n) }, &mb);
                    if le(&c) != want { return Err(format!("encrypting {} with exponent {} modulo {} gave {}, not {}", m, e, n, le(&c), want)); }
                    let c = RSACryptoSystem::<F>::decrypt_message(&RSAPrivateKey::<F> { d: el(&e), n: el(&n) }, &mb);
                    if le(&c) != want { return Err(format!("decrypting {} with exponent {} modulo {} gave {}, not {}", m, e, n, le(&c), want)); }
                }
                Ok(())
            });
        }
    }
    // exponents of few bits, of many, and powers of two with what lies beside them
    fn exponents<F: Fld>(r: &mut Runner, name: &str) {
        let p = up(&F::field_prime());
        for k in 0..p.bits() {
            r.case(&format!("exponents/{}/{}", name, k), |g| {
                let one = big(1) << k;
                for e in [one.clone(), &one + big(1), &one - big(1), &one + (&one >> 1usize), &one + (big(1) << (k / 2)), &one + big(1 << g.below(20)), big(2) * &one - big(2)] {
                    if e >= p { continue; }
                    let n = below(g, &(&p - big(1))) + big(1);
                    for m in [below(g, &p), below(g, &n)] {
                        let want = powmod(&m, &e, &n);
                        let c = RSACryptoSystem::<F>::encrypt_message(&RSAPublicKey::<F> { e: el(&e), n: el(&n) }, &m.to_bytes_le());
                        if le(&c) != want { return Err(format!("encrypting {} with exponent {} modulo {} gave {}, not {}", m, e, n, le(&c), want)); }
                        let c = RSACryptoSystem::<F>::decrypt_message(&RSAPrivateKey::<F> { d: el(&e), n: el(&n) }, &m.to_bytes_le());
                        if le(&c) != want { return Err(format!("decrypting {} with exponent {} modulo {} gave {}, not {}", m, e, n, le(&c), want)); }
                    }
                }
                Ok(())
            });
        }
    }
    // messages with any amount of padding
    fn padded<F: Fld>(r: &mut Runner, name: &str) {
        let p = up(&F::field_prime());
        for pad in [4usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 70000] {
            r.case(&format!("padded/{}/{}", name, pad), |g| {
                for _ in 0..4 {
                    let (n, e) = (below(g, &(&p - big(1))) + big(1), shaped(g, &p));
                    for m in [&p - big(1), below(g, &p), &n - big(1), big(1), big(0)] {
                        let mut mb = m.to_bytes_le();
                        mb.extend(vec![0; pad]);
                        let want = powmod(&m, &e, &n);
                        let c = RSACryptoSystem::<F>::encrypt_message(&RSAPublicKey::<F> { e: el(&e), n: el(&n) }, &mb);
                        if le(&c) != want { return Err(format!("encrypting {} (and {} zero bytes) with exponent {} modulo {} gave {}, not {}", m, pad, e, n, le(&c), want)); }
                        let c = RSACryptoSystem::<F>::decrypt_message(&RSAPrivateKey::<F> { d: el(&e), n: el(&n) }, &mb);
                        if le(&c) != want { return Err(format!("decrypting {} (and {} zero bytes) with exponent {} modulo {} gave {}, not {}", m, pad, e, n, le(&c), want)); }
                    }
                }
                Ok(())
            });
        }
    }
    padded::<Mersenne61>(r, "mersenne61");
    padded::<Mersenne127>(r, "mersenne127");
    exponents::<Mersenne61>(r, "mersenne61");
    exponents::<Mersenne127>(r, "mersenne127");
    values::<Mersenne13>(r, "mersenne13", 60);
    values::<Mersenne61>(r, "mersenne61", 30);
    values::<Mersenne127>(r, "mersenne127", 10);
    fn sized<F: Fld>(r: &mut Runner, name: &str, bits: usize, reps: usize) {
        for k in 0..reps {
            r.case(&format!("{}/{}/{}", name, bits, k), |g| {
                let q1 = gen_prime(g, bits / 2);
                let q2 = loop { let q = gen_prime(g, bits - bits / 2); if q != q1 { break q; } };
                let n = &q1 * &q2;
                let Some((e, d)) = rsa_keys(g, &q1, &q2, if k % 3 == 0 { Some([3u64, 5, 17, 257, 65537][k % 5]) } else { None }) else { return Ok(()) };
                for m in [big(0), big(1), big(2), &n - big(1), q1.clone(), q2.clone(), &q1 * big(2), &n - &q1, below(g, &n), below(g, &n), big(255), big(256), shaped(g, &n), shaped(g, &n), shaped(g, &n), shaped(g, &n)] {
                    if m < n { rsa_one::<F>(&m, &e, &d, &n, g.range(0, 3))?; }
                }
                Ok(())
            });
        }
    }
    sized::<Mersenne31>(r, "mersenne31", 30, 30);
    sized::<Mersenne61>(r, "mersenne61", 60, 30);
    sized::<Mersenne127>(r, "mersenne127", 126, 12);
    sized::<IetfGroup1>(r, "ietf1", 256, 6);
    if r.deep { sized::<IetfGroup1>(r, "ietf1", 1022, 1); sized::<IetfGroup2>(r, "ietf2", 512, 3); }
}
/// the contracts assumed of num-bigint (units/lib/biguint.vrs), tried on the crate itself
fn dependency(r: &mut Runner) {
    use harness::refbig as rb;
    let fr = |a: &rb::N| BigUint::from_bytes_le(a);
    for k in 0..if r.deep { 400 } else { 40 } {
        r.case(&format!("num-bigint/{}", k), |g| {
            let mut num = || {
                let n = if g.below(4) == 0 { g.range(0, 3) } else { g.range(0, 70) };
                let mut v = g.bytes(n);
                // runs of zero and one bits cross digit boundaries
                if n > 0 && g.bool() { let (i, j) = (g.range(0, n), g.range(0, n)); let f = if g.bool() { 0 } else { 255 }; for x in &mut v[i.min(j)..i.max(j)] { *x = f; } }
                rb::trim(v)
            };
            let (a, b, e) = (num(), num(), num());
            let (x, y) = (fr(&a), fr(&b));
            let is = |what: &str, got: &BigUint, want: &rb::N| -> Result<(), String> {
                let l = got.to_bytes_le();
                let mut be = got.to_bytes_be();
                be.reverse();
                if rb::trim(l.clone()) == *want && be == l && (l.len() == want.len() || want.is_empty() && l == [0]) { return Ok(()); }
                Err(format!("num-bigint breaks the contract assumed of it: {} of {} and {} gave {}", what, x, y, got))
            };
            is("from_bytes_le", &x, &a)?;
            let mut rev = a.clone(); rev.reverse();
            is("from_bytes_be", &BigUint::from_bytes_be(&rev), &a)?;
            is("+", &(&x + &y), &rb::add(&a, &b))?;
            is("+", &(x.clone() + y.clone()), &rb::add(&a, &b))?;
            let mut z = x.clone(); z += &y; is("+=", &z, &rb::add(&a, &b))?;
            z -= &y; is("-=", &z, &a)?;
            is("*", &(&x * &y), &rb::mul(&a, &b))?;
            is("*", &(x.clone() * &y), &rb::mul(&a, &b))?;
            if (x < y) != (rb::cmp(&a, &b) == std::cmp::Ordering::Less) || (x == y) != (a == b) || x.is_zero() != a.is_empty() || x.is_one() != (a == [1]) { return Err(format!("num-bigint compares {} and {} wrongly", x, y)); }
            if !b.is_empty() {
                let (q, m) = rb::divrem(&a, &b);
                is("/", &(&x / &y), &q)?;
                is("%", &(&x % &y), &m)?;
                is("%", &(x.clone() % y.clone()), &m)?;
                let e = rb::trim(e[..e.len().min(3)].to_vec());
                is("modpow", &x.modpow(&fr(&e), &y), &rb::powmod(&a, &e, &b))?;
            }
            let radix = g.range(2, 36) as u32;
            let s: String = (0..g.range(1, 60)).map(|_| std::char::from_digit(g.below(radix as u64) as u32, radix).unwrap()).collect();
            is("from_str_radix", &BigUint::from_str_radix(&s, radix).map_err(|e| e.to_string())?, &rb::parse(&s, radix))?;
            let w = g.u64() >> g.below(64);
            is("from_u64", &BigUint::from_u64(w).ok_or("from_u64")?, &rb::trim(w.to_le_bytes().to_vec()))?;
            let i = (g.u64() as i64) >> g.below(64);
            if BigUint::from_i64(i).is_some() != (i >= 0) { return Err("from_i64".into()); }
            if i >= 0 { is("from_i64", &BigUint::from_i64(i).unwrap(), &rb::trim(i.to_le_bytes().to_vec()))?; }
            let below = TestRng::new(g).gen_biguint_below(&(&y + &BigUint::one()));
            if below > y { return Err("gen_biguint_below".into()); }
            Ok(())
        });
    }
}
fn main() {
    harness::main_with(|r| {
        dependency(r);
        match r.property.clone().as_str() {
            "M01" => { each!(r, arith); each!(r, st_arith); for _ in 0..1 { each!(r, arith_more); } }
            "M02" => { each!(r, inverse); each!(r, st_inverse); each!(r, inverse_more); }
            "M03" => { each!(r, conv); each!(r, st_conv); }
            "M04" => { each!(r, bytes); each!(r, st_bytes); }
            "M05" => { each!(r, powers); each!(r, st_powers); }
            "M06" => each!(r, random_member),
            "E01" => { each!(r, dh); each!(r, st_dh); }
            "E02" => rsa(r),
            _ => return false,
        }
        true
    })
}
