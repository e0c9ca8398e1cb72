//! Replay harness: runs the real crates against independent reference implementations.
//! usage: hash <PROPERTY> <seconds> <seed> <out.json> [deep] | hash --replay <replay.json>
#![allow(clippy::all)]
//! H01..H07: hash functions, HMAC, HKDF
use harness::refhash::{self, Alg};
use harness::run::*;
use jester_hashes::blake::blake2b::*;
use jester_hashes::blake::blake2s::*;
use jester_hashes::hmac::hmac as code_hmac;
use jester_hashes::kdf::hkdf_derive_key;
use jester_hashes::md5::MD5Hash;
use jester_hashes::sha1::SHA1Hash;
use jester_hashes::{BlockHashFunction, HashFunction, HashValue};

fn one<H: HashFunction>(ctx: &H::Context, m: &[u8]) -> Vec<u8> {
    H::digest_message(ctx, m).raw()
}
fn pieces<H: HashFunction>(ctx: &H::Context, ps: &[&[u8]]) -> Vec<u8> {
    let mut s = H::init_hash(ctx);
    for p in ps {
        H::update_hash(&mut s, ctx, p);
    }
    H::finish_hash(&mut s, ctx).raw()
}
fn code_hash(a: &Alg, m: &[u8]) -> Vec<u8> {
    match a {
        Alg::Md5 => one::<MD5Hash>(&(), m),
        Alg::Sha1 => one::<SHA1Hash>(&(), m),
        Alg::B2b(k, n) => one::<Blake2b>(&Blake2bContext { output_len: *n, key: k.clone() }, m),
        Alg::B2s(k, n) => one::<Blake2s>(&Blake2sContext { output_len: *n, key: k.clone() }, m),
    }
}
fn code_pieces(a: &Alg, ps: &[&[u8]]) -> Vec<u8> {
    match a {
        Alg::Md5 => pieces::<MD5Hash>(&(), ps),
        Alg::Sha1 => pieces::<SHA1Hash>(&(), ps),
        Alg::B2b(k, n) => pieces::<Blake2b>(&Blake2bContext { output_len: *n, key: k.clone() }, ps),
        Alg::B2s(k, n) => pieces::<Blake2s>(&Blake2sContext { output_len: *n, key: k.clone() }, ps),
    }
}
fn mac<H: BlockHashFunction>(ctx: &H::Context, k: &[u8], m: &[u8]) -> Vec<u8> {
    code_hmac::<H, H::Context>(ctx, k, m)
}
fn code_mac(a: &Alg, k: &[u8], m: &[u8]) -> Vec<u8> {
    match a {
        Alg::Md5 => mac::<MD5Hash>(&(), k, m),
        Alg::Sha1 => mac::<SHA1Hash>(&(), k, m),
        Alg::B2b(kk, n) => mac::<Blake2b>(&Blake2bContext { output_len: *n, key: kk.clone() }, k, m),
        Alg::B2s(kk, n) => mac::<Blake2s>(&Blake2sContext { output_len: *n, key: kk.clone() }, k, m),
    }
}
fn kdf<H: BlockHashFunction>(ctx: &H::Context, s: &[u8], i: &[u8], l: usize, info: &[u8]) -> Vec<u8> {
    hkdf_derive_key::<H, H::Context>(ctx, s, i, l, info)
}
fn code_kdf(a: &Alg, s: &[u8], i: &[u8], l: usize, info: &[u8]) -> Vec<u8> {
    match a {
        Alg::Md5 => kdf::<MD5Hash>(&(), s, i, l, info),
        Alg::Sha1 => kdf::<SHA1Hash>(&(), s, i, l, info),
        Alg::B2b(kk, n) => kdf::<Blake2b>(&Blake2bContext { output_len: *n, key: kk.clone() }, s, i, l, info),
        Alg::B2s(kk, n) => kdf::<Blake2s>(&Blake2sContext { output_len: *n, key: kk.clone() }, s, i, l, info),
    }
}
/// hashes nobody finishes, keys and lengths no algorithm takes
fn abandon<H: HashFunction>(ctx: &H::Context, ps: &[&[u8]]) {
    let mut s = H::init_hash(ctx);
    for p in ps {
        H::update_hash(&mut s, ctx, p);
    }
}
fn disturb(_: &str, g: &mut Rng) {
    let (n, k) = (g.range(0, 300), g.range(0, 64));
    let (m, key) = (g.bytes(n), g.bytes(k));
    let cut = g.range(0, n);
    let long = g.bytes(200);
    for _ in 0..g.range(1, 3) {
        match g.below(9) {
            7 => try_call(|| mac::<Blake2b>(&Blake2bContext { output_len: 65 + cut, key: vec![] }, &long[..g.range(0, 200)], &m)),
            8 => try_call(|| kdf::<Blake2s>(&Blake2sContext { output_len: 33 + cut, key: vec![] }, &long[..g.range(0, 200)], &m, 70, &key)),
            0 => try_call(|| abandon::<MD5Hash>(&(), &[&m[..cut], &m[cut..]])),
            1 => try_call(|| abandon::<SHA1Hash>(&(), &[&m[..cut], &m[cut..]])),
            2 => try_call(|| abandon::<Blake2b>(&Blake2bContext { output_len: 1 + cut % 64, key: key.clone() }, &[&m[..cut], &m[cut..]])),
            3 => try_call(|| abandon::<Blake2s>(&Blake2sContext { output_len: 1 + cut % 32, key: key[..k / 2].to_vec() }, &[&m[..cut], &m[cut..]])),
            4 => try_call(|| one::<Blake2b>(&Blake2bContext { output_len: cut, key: long.clone() }, &m)),
            5 => try_call(|| one::<Blake2s>(&Blake2sContext { output_len: cut, key: long.clone() }, &m)),
            _ => try_call(|| kdf::<MD5Hash>(&(), &key, &m, 255 * 16 + 1 + cut, &long)),
        }
    }
}
fn check_hash(a: &Alg, m: &[u8]) -> Result<(), String> {
    eq(|| format!("{:?} of message {} ({} bytes)", a, hex(m), m.len()), &code_hash(a, m), &a.hash(m))
}
/// message contents used throughout: random, all zero, all one, increasing
fn message(g: &mut Rng, n: usize) -> Vec<u8> {
    match g.below(9) {
        // words or blocks that repeat, now and then with one that differs
        8 => {
            let k = *g.pick(&[1usize, 2, 4, 8, 16, 32, 64, 128, 3, 7]);
            let (w, u, one) = (g.bytes(k), g.bytes(k), g.range(0, 40));
            (0..n).map(|i| if i / k == one { u[i % k] } else { w[i % k] }).collect()
        }
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| i as u8).collect(),
        3 => vec![0x80; n],
        _ => g.bytes(n),
    }
}
/// a byte string that resembles `m`: same length or beginning or end, same sum or exclusive or of the bytes, padded, cut
fn relative(g: &mut Rng, m: &[u8], b: usize) -> Vec<u8> {
    let mut v = m.to_vec();
    let n = v.len();
    let at = |g: &mut Rng| match g.below(4) { 0 => 0, 1 => n - 1, 2 => g.range(0, 7.min(n - 1)), _ => g.range(0, n - 1) };
    match g.below(16) {
        0 => {}
        1 if n > 0 => v.truncate(g.range(0, n - 1)),
        2 if n > 0 => { v.pop(); }
        3 => v.push(0),
        4 => v.push(g.u64() as u8),
        5 if n > 0 => { let i = at(g); v[i] ^= 1 << g.below(8); }
        6 if n > 0 => { let i = n - 1 - g.range(0, (n - 1).min(b / 2)); v[i] = v[i].wrapping_add(1); }
        7 if n > 1 => { let (i, j) = (at(g), at(g)); v.swap(i, j); }
        8 => v.reverse(),
        9 if n > 1 => { let (i, j, x) = (at(g), at(g), g.u64() as u8); v[i] ^= x; v[j] ^= x; }
        10 if n > 1 => { let (i, j) = (at(g), at(g)); v[i] = v[i].wrapping_add(1); v[j] = v[j].wrapping_sub(1); }
        11 if n > 8 => { let k = g.range(1, n - 1); let t = g.bytes(n - k); v[k..].copy_from_slice(&t); }
        12 if n > 8 => { let k = g.range(1, n - 1); let t = g.bytes(k); v[..k].copy_from_slice(&t); }
        13 => { let t = v.clone(); v.extend(t); v.truncate(3 * b); }
        14 => { let k = g.range(0, b); v.extend(g.bytes(k)); v.truncate(3 * b); }
        15 if n > 0 => { v.remove(0); }
        _ => { let k = g.range(0, 2 * b); v = g.bytes(k); }
    }
    v
}
/// pieces that are cut like `ps`, or nearly so, with related contents
fn relative_pieces(g: &mut Rng, ps: &[Vec<u8>], b: usize) -> Vec<Vec<u8>> {
    if g.bool() {
        // the same cuts, contents that agree except in one or two places
        let mut v = ps.to_vec();
        for _ in 0..g.range(1, 2) {
            let i = g.range(0, v.len() - 1);
            let n = v[i].len();
            if n > 0 { let j = if g.bool() { n - 1 - g.range(0, 3.min(n - 1)) } else { g.range(0, n - 1) }; v[i][j] ^= 1 << g.below(8); }
        }
        return v;
    }
    ps.iter().map(|p| if g.below(3) == 0 { relative(g, p, b) } else { p.clone() }).collect()
}
/// computations one after the other in one thread whose inputs resemble each other: none depends on an earlier one
fn history(r: &mut Runner, a: &Alg, tag: &str, rounds: usize, streams: bool) {
    let b = a.block();
    for i in 0..rounds {
        r.case(&format!("{}alike/{}", tag, i), |g| {
            let n = g.range(0, 2 * b);
            let first = message(g, n);
            let mut m = first.clone();
            for _ in 0..10 {
                check_hash(a, &m)?;
                m = match g.below(5) { 0 => first.clone(), 1 => relative(g, &first, b), _ => relative(g, &m, b) };
            }
            if !streams { return Ok(()); }
            let k = g.range(2, 4);
            let rest = [b - 1, b, b - 9, b - 8, 1, b + 1][g.below(6) as usize];
            let first: Vec<Vec<u8>> = (0..k).map(|j| { let n = if j + 1 < k || g.bool() { g.range(1, rest) } else { rest }; g.bytes(n) }).collect();
            let mut first = first;
            if g.bool() { let t: usize = first[..k - 1].iter().map(|p| p.len()).sum(); if t < rest { first[k - 1] = g.bytes(rest - t); } }
            let mut ps = first.clone();
            for _ in 0..8 {
                let refs: Vec<&[u8]> = ps.iter().map(|p| &p[..]).collect();
                let m = ps.concat();
                eq(|| format!("{:?} of {} fed in pieces of {:?} bytes", a, hex(&m), ps.iter().map(|p| p.len()).collect::<Vec<_>>()), &code_pieces(a, &refs), &a.hash(&m))?;
                ps = if g.below(4) == 0 { first.clone() } else { relative_pieces(g, &ps, b) };
            }
            Ok(())
        });
    }
}
fn all_lengths(r: &mut Runner, a: Alg, max: usize) {
    for n in 0..=max {
        for v in 0..3 {
            r.case(&format!("length/{}/{}", n, v), |g| check_hash(&a, &message(g, n)));
        }
    }
    for i in 0..200 {
        r.case(&format!("long/{}", i), |g| {
            let n = g.range(0, 200_000);
            check_hash(&a, &message(g, n))
        });
        if !r.time_left() {
            break;
        }
    }
    let a2 = a.clone();
    splits(r, &a2, "split", 40);
    beside(r, &a, "");
    named(r, &a, "");
    again(r, &a, "");
    placed(r, &a, "");
    history(r, &a, "", 150, true);
    big(r, &a, "", if r.deep { 1 << 26 } else { 1 << 24 });
    let mut i = 0;
    while r.time_left() && i < 3000 {
        r.case(&format!("random/{}", i), |g| {
            let n = g.range(0, 700);
            check_hash(&a, &message(g, n))
        });
        i += 1;
    }
}
/// every cut of messages around the block boundaries in two, and random cuts in many pieces
fn splits(r: &mut Runner, a: &Alg, tag: &str, rounds: usize) {
    let b = a.block();
    for n in [0, 1, 7, 8, 9, b - 9, b - 8, b - 1, b, b + 1, 2 * b - 9, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b, 3 * b + 5] {
        for c in 0..=n {
            r.case(&format!("{}2/{}/{}", tag, n, c), |g| {
                let m = g.bytes(n);
                let want = a.hash(&m);
                eq(|| format!("{:?} of {} fed as {} + {} bytes", a, hex(&m), c, n - c), &code_pieces(a, &[&m[..c], &m[c..]]), &want)?;
                eq(|| format!("{:?} of {} in one call", a, hex(&m)), &code_hash(a, &m), &want)
            });
        }
    }
    for i in 0..rounds {
        r.case(&format!("{}n/{}", tag, i), |g| {
            let k = g.range(1, 12);
            let ps: Vec<Vec<u8>> = (0..k)
                .map(|_| {
                    let n = match g.below(6) {
                        0 => 0,
                        1 => 1,
                        2 => b,
                        3 => g.range(b - 2, b + 2),
                        4 => g.range(0, 4 * b),
                        _ => g.range(0, b),
                    };
                    g.bytes(n)
                })
                .collect();
            let m: Vec<u8> = ps.concat();
            let sizes: Vec<usize> = ps.iter().map(|p| p.len()).collect();
            let refs: Vec<&[u8]> = ps.iter().map(|p| &p[..]).collect();
            let want = a.hash(&m);
            eq(|| format!("{:?} of {} fed in pieces of {:?} bytes", a, hex(&m), sizes), &code_pieces(a, &refs), &want)?;
            eq(|| format!("{:?} of {} in one call", a, hex(&m)), &code_hash(a, &m), &want)
        });
        if !r.time_left() {
            break;
        }
    }
}
fn pattern(n: usize) -> Vec<u8> {
    (0..n).map(|i| ((i as u32).wrapping_mul(2654435761) >> 13) as u8).collect()
}
/// messages absorbed by one large update, at once and after a few pending bytes
fn big(r: &mut Runner, a: &Alg, tag: &str, max: usize) {
    let b = a.block();
    for k in [1usize << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 20, 1 << 22, 1 << 23, 1 << 24, 1 << 26] {
        if k > max {
            break;
        }
        for n in if k <= 1 << 16 { vec![k - 1, k, k + 1, k + b / 2, k + b - 5] } else { vec![k + b - 5] } {
            r.case(&format!("{}big/{}", tag, n), |_| {
                let m = pattern(n);
                let want = a.hash(&m);
                eq(|| format!("{:?} of the {} bytes i*2654435761>>13 in one update", a, n), &code_hash(a, &m), &want)
            });
        }
        // any length of that magnitude
        for j in 0..if k <= 1 << 18 { 12 } else if k <= 1 << 20 { 4 } else { 1 } {
            r.case(&format!("{}magnitude/{}/{}", tag, k, j), |g| {
                let n = k + g.range(0, k.min(1 << 23));
                let m = pattern(n);
                let want = a.hash(&m);
                eq(|| format!("{:?} of the {} bytes i*2654435761>>13 in one update", a, n), &code_hash(a, &m), &want)?;
                let c = g.range(0, n);
                eq(|| format!("{:?} of the {} bytes i*2654435761>>13 fed as {} + {}", a, n, c, n - c), &code_pieces(a, &[&m[..c], &m[c..]]), &want)
            });
        }
        // pieces of which the later ones cross the threshold
        for c in [1, b - 1, b, b + 7] {
            if k > 1 << 18 && c != b - 1 {
                continue;
            }
            r.case(&format!("{}big-pieces/{}/{}", tag, k, c), |_| {
                let m = pattern(c + k + b + 3);
                let want = a.hash(&m);
                eq(|| format!("{:?} of the {} bytes i*2654435761>>13 fed as {} + {} + 3 bytes", a, m.len(), c, k + b), &code_pieces(a, &[&m[..c], &m[c..c + k + b], &m[c + k + b..]]), &want)
            });
        }
    }
}
/// lengths the code names: one update, two updates, many short updates
fn named(r: &mut Runner, a: &Alg, tag: &str) {
    for n in dict_sizes(0, 1 << 24) {
        r.case(&format!("{}named/{}", tag, n), |g| {
            let m = pattern(n + 1);
            let long = a.hash(&m);
            eq(|| format!("{:?} of the {} bytes i*2654435761>>13 in one update", a, n), &code_hash(a, &m[..n]), &a.hash(&m[..n]))?;
            eq(|| format!("{:?} of the {} bytes i*2654435761>>13 fed as {} + 1", a, n + 1, n), &code_pieces(a, &[&m[..n], &m[n..]]), &long)?;
            eq(|| format!("{:?} of the {} bytes i*2654435761>>13 fed as 1 + {}", a, n + 1, n), &code_pieces(a, &[&m[..1], &m[1..]]), &long)?;
            if n > 1 && n <= 1 << 17 {
                // that many updates
                let k = g.range(0, 3);
                let m = pattern(n * k);
                let ps: Vec<&[u8]> = if k == 0 { vec![&m[..]; n] } else { m.chunks(k).collect() };
                eq(|| format!("{:?} of the bytes i*2654435761>>13 fed in {} pieces of {} bytes", a, n, k), &code_pieces(a, &ps), &a.hash(&m))?;
            }
            for (i, c) in dict_sizes(1, n).into_iter().enumerate() {
                if i < 12 && n <= 1 << 20 {
                    eq(|| format!("{:?} of the {} bytes i*2654435761>>13 fed in pieces of {}", a, n + 1, c), &code_pieces(a, &m.chunks(c).collect::<Vec<_>>()), &long)?;
                }
            }
            Ok(())
        });
    }
}
/// the same slice absorbed again and again
fn again(r: &mut Runner, a: &Alg, tag: &str) {
    for j in 0..60 {
        r.case(&format!("{}again/{}", tag, j), |g| {
            let (n, k) = (g.range(0, 2 * a.block() + 3), g.range(2, 6));
            let m = message(g, n);
            let mut ps: Vec<std::ops::Range<usize>> = (0..k).map(|_| view(g, n)).collect();
            if g.bool() { let p = ps[0].clone(); ps.iter_mut().for_each(|q| *q = p.clone()); }
            let views: Vec<&[u8]> = ps.iter().map(|p| &m[p.clone()]).collect();
            eq(|| format!("{:?} of the parts {:?} of one buffer {}", a, ps, hex(&m)), &code_pieces(a, &views), &a.hash(&views.concat()))
        });
    }
}
/// messages and pieces that start at every distance from a 64 byte boundary
fn placed(r: &mut Runner, a: &Alg, tag: &str) {
    let b = a.block();
    for shift in 0..64 {
        r.case(&format!("{}placed/{}", tag, shift), |g| {
            let room = g.bytes(64 + shift + 8 * b);
            let start = room.as_ptr().align_offset(64).min(64) + shift;
            for n in [1, b - 1, b, b + 1, 2 * b, 3 * b, 3 * b + 1, 5 * b + 7, g.range(0, 7 * b)] {
                let m = &room[start..start + n];
                check_hash(a, m)?;
                let cut = g.range(0, n);
                eq(|| format!("{:?} of {} in two pieces, the first of {} bytes, {} bytes behind a boundary", a, hex(m), cut, shift), &code_pieces(a, &[&m[..cut], &m[cut..]]), &a.hash(m))?;
            }
            Ok(())
        });
    }
}
fn interleaved<H: HashFunction>(ctx: &H::Context, ps: &[Vec<u8>], qs: &[Vec<u8>]) -> (Vec<u8>, Vec<u8>) {
    let (mut s, mut t) = (H::init_hash(ctx), H::init_hash(ctx));
    for i in 0..ps.len().max(qs.len()) {
        if let Some(p) = ps.get(i) {
            H::update_hash(&mut s, ctx, p);
        }
        if let Some(q) = qs.get(i) {
            H::update_hash(&mut t, ctx, q);
        }
    }
    (H::finish_hash(&mut s, ctx).raw(), H::finish_hash(&mut t, ctx).raw())
}
/// computations that run side by side, in one thread and in several, do not influence each other
fn beside(r: &mut Runner, a: &Alg, tag: &str) {
    for i in 0..60 {
        r.case(&format!("{}interleaved/{}", tag, i), |g| {
            let mut mk = || -> Vec<Vec<u8>> { (0..g.range(1, 5)).map(|_| { let n = g.range(0, 2 * a.block() + 3); message(g, n) }).collect() };
            let (ps, qs) = (mk(), mk());
            let (x, y) = match a {
                Alg::Md5 => interleaved::<MD5Hash>(&(), &ps, &qs),
                Alg::Sha1 => interleaved::<SHA1Hash>(&(), &ps, &qs),
                Alg::B2b(k, n) => interleaved::<Blake2b>(&Blake2bContext { output_len: *n, key: k.clone() }, &ps, &qs),
                Alg::B2s(k, n) => interleaved::<Blake2s>(&Blake2sContext { output_len: *n, key: k.clone() }, &ps, &qs),
            };
            for (v, m) in [(x, ps.concat()), (y, qs.concat())] {
                eq(|| format!("{:?} of {} while another message is hashed", a, hex(&m)), &v, &a.hash(&m))?;
            }
            Ok(())
        });
    }
    r.case(&format!("{}threads", tag), |g| {
        let ms: Vec<Vec<u8>> = (0..8).map(|i| g.bytes(3000 + 61 * i)).collect();
        let out: Vec<Result<(), String>> = std::thread::scope(|s| {
            let hs: Vec<_> = ms.iter().map(|m| s.spawn(move || {
                let want = a.hash(m);
                for _ in 0..40 {
                    eq(|| format!("{:?} of {} in one of eight threads", a, hex(m)), &code_hash(a, m), &want)?;
                }
                Ok(())
            })).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked in a thread".into()))).collect()
        });
        out.into_iter().collect()
    });
}
/// a message of `n` bytes (a repeated buffer) absorbed in 1 MiB pieces by both sides
fn huge<H: HashFunction>(r: &mut Runner, name: &str, ctx: &H::Context, n: u64, mk: impl FnOnce() -> Box<dyn FnMut(Option<&[u8]>) -> Vec<u8> + Send> + Send + 'static) {
    r.case_limit(&format!("huge/{}", name), 600, |_| {
        let buf: Vec<u8> = (0..1 << 20).map(|i: u32| (i.wrapping_mul(2654435761) >> 13) as u8).collect();
        let b2 = buf.clone();
        let t = std::thread::spawn(move || {
            let mut f = mk();
            let mut left = n;
            while left > 0 {
                let k = left.min(b2.len() as u64) as usize;
                f(Some(&b2[..k]));
                left -= k as u64;
            }
            f(None)
        });
        let mut s = H::init_hash(ctx);
        let mut left = n;
        while left > 0 {
            let k = left.min(buf.len() as u64) as usize;
            H::update_hash(&mut s, ctx, &buf[..k]);
            left -= k as u64;
        }
        let got = H::finish_hash(&mut s, ctx).raw();
        let want = t.join().map_err(|_| "reference".to_string())?;
        eq(|| format!("message of {} bytes (1 MiB buffer i*2654435761>>13 repeated)", n), &got, &want)
    });
}
fn ref_md(md5: bool) -> Box<dyn FnMut(Option<&[u8]>) -> Vec<u8> + Send> {
    let mut s = Some(if md5 { refhash::Md::md5() } else { refhash::Md::sha1() });
    Box::new(move |p| match p {
        Some(p) => {
            s.as_mut().unwrap().absorb(p);
            vec![]
        }
        None => s.take().unwrap().finish(),
    })
}
pub fn md5(r: &mut Runner) {
    all_lengths(r, Alg::Md5, 330);
    if r.deep {
        huge::<MD5Hash>(r, "512MiB+5", &(), (1 << 29) + 5, || ref_md(true));
        huge::<MD5Hash>(r, "4GiB+70", &(), (1 << 32) + 70, || ref_md(true));
    }
}
pub fn sha1(r: &mut Runner) {
    all_lengths(r, Alg::Sha1, 330);
    if r.deep {
        huge::<SHA1Hash>(r, "512MiB+5", &(), (1 << 29) + 5, || ref_md(false));
        huge::<SHA1Hash>(r, "4GiB+70", &(), (1 << 32) + 70, || ref_md(false));
    }
}
fn blake(r: &mut Runner, b: bool) {
    let max = if b { 64 } else { 32 };
    let mk = |k: Vec<u8>, n: usize| if b { Alg::B2b(k, n) } else { Alg::B2s(k, n) };
    let bl = 2 * max;
    for k in 0..=max {
        for n in [0, 1, bl - 1, bl, bl + 1, 2 * bl, 2 * bl + 1] {
            for o in [1, k.max(1), max] {
                r.case(&format!("key/{}/{}/{}", k, n, o), |g| check_hash(&mk(g.bytes(k), o), &message(g, n)));
                r.case(&format!("key-pattern/{}/{}/{}", k, n, o), |g| {
                    let key = match g.below(4) {
                        0 => vec![0; k],
                        1 => vec![0xff; k],
                        2 => (0..k).map(|i| if 2 * i < k { i as u8 } else { 0 }).collect(),
                        _ => (0..k).map(|i| if 2 * i < k { 0 } else { i as u8 }).collect(),
                    };
                    check_hash(&mk(key, o), &message(g, n))
                });
            }
        }
    }
    for o in 1..=max {
        for k in [0, 1, max] {
            r.case(&format!("out/{}/{}", o, k), |g| {
                let n = g.range(0, 3 * bl);
                check_hash(&mk(g.bytes(k), o), &message(g, n))
            });
        }
    }
    for i in 0..150 {
        r.case(&format!("key-alike/{}", i), |g| {
            let (k, n) = (g.range(0, max), g.range(0, 2 * bl + 1));
            let (k0, m0) = (g.bytes(k), message(g, n));
            let (mut key, mut m, mut o) = (k0.clone(), m0.clone(), g.range(1, max));
            for _ in 0..10 {
                check_hash(&mk(key.clone(), o), &m)?;
                match g.below(6) { 0 => { key = k0.clone(); m = m0.clone(); } 1 => o = g.range(1, max), 2 => m = relative(g, &m, bl), 3 => { m = key.clone(); } _ => { key = relative(g, &key, bl); key.truncate(max); } }
            }
            Ok(())
        });
    }
    splits(r, &mk(vec![], max), "split", 60);
    splits(r, &mk(vec![7; max / 2], max / 2 + 3), "ksplit", 60);
    all_lengths(r, mk(vec![], max), 5 * bl + 3);
    if r.deep {
        if b {
            let c = Blake2bContext { output_len: 64, key: vec![] };
            huge::<Blake2b>(r, "4GiB+300", &c, (1 << 32) + 300, || {
                let mut s = Some(refhash::B2b::new(&[], 64));
                Box::new(move |p| match p {
                    Some(p) => {
                        s.as_mut().unwrap().absorb(p);
                        vec![]
                    }
                    None => s.take().unwrap().finish(),
                })
            });
        } else {
            let c = Blake2sContext { output_len: 32, key: vec![] };
            huge::<Blake2s>(r, "4GiB+300", &c, (1 << 32) + 300, || {
                let mut s = Some(refhash::B2s::new(&[], 32));
                Box::new(move |p| match p {
                    Some(p) => {
                        s.as_mut().unwrap().absorb(p);
                        vec![]
                    }
                    None => s.take().unwrap().finish(),
                })
            });
        }
    }
}
pub fn blake2b(r: &mut Runner) {
    blake(r, true)
}
pub fn blake2s(r: &mut Runner) {
    blake(r, false)
}
fn algs(g: &mut Rng) -> Vec<Alg> {
    let (k1, k2, n1, n2) = (g.range(0, 64), g.range(0, 32), g.range(1, 64), g.range(1, 32));
    vec![Alg::Md5, Alg::Sha1, Alg::B2b(vec![], 64), Alg::B2s(vec![], 32), Alg::B2b(g.bytes(k1), n1), Alg::B2s(g.bytes(k2), n2)]
}
pub fn streaming(r: &mut Runner) {
    let a = algs(&mut r.rng("algs"));
    for (i, a) in a.iter().enumerate() {
        splits(r, a, &format!("alg{}-", i), 150);
        beside(r, a, &format!("alg{}-", i));
        named(r, a, &format!("alg{}-", i));
        again(r, a, &format!("alg{}-", i));
        placed(r, a, &format!("alg{}-", i));
        history(r, a, &format!("alg{}-", i), 250, true);
    }
    for (i, a) in a.iter().enumerate() {
        big(r, a, &format!("alg{}-", i), if r.deep { 1 << 24 } else { 1 << 20 });
    }
    let mut i = 0;
    while r.time_left() && i < 20_000 {
        r.case(&format!("byte-by-byte/{}", i), |g| {
            let n = g.range(0, 400);
            let m = g.bytes(n);
            for a in algs(g) {
                let mut ps: Vec<&[u8]> = vec![];
                let mut p = 0;
                while p < n {
                    let k = g.range(0, 3).min(n - p);
                    ps.push(&m[p..p + k]);
                    p += k;
                }
                eq(|| format!("{:?} of {} fed in pieces of at most 3 bytes", a, hex(&m)), &code_pieces(&a, &ps), &code_hash(&a, &m))?;
            }
            Ok(())
        });
        i += 1;
    }
}
/// a part of a buffer of `n` bytes: all of it, a beginning, an end or any other part
fn view(g: &mut Rng, n: usize) -> std::ops::Range<usize> {
    let (a, b) = (g.range(0, n), g.range(0, n));
    match g.below(5) { 0 => 0..n, 1 => 0..a, 2 => a..n, _ => a.min(b)..a.max(b) }
}
pub fn hmac(r: &mut Runner) {
    let base = algs(&mut r.rng("algs"));
    for (i, a) in base.iter().enumerate() {
        for n in dict_sizes(0, 1 << 21) {
            r.case(&format!("named/{}/{}", i, n), |g| {
                let m = if n < 10000 { message(g, n) } else { pattern(n) };
                for l in [0, 1, a.block(), 200] {
                    let k = message(g, l);
                    eq(|| format!("hmac {:?} key {} and a message of {} bytes", a, hex(&k), n), &code_mac(a, &k, &m), &a.hmac(&k, &m))?;
                    eq(|| format!("hmac {:?} message {} and a key of {} bytes", a, hex(&k), n), &code_mac(a, &m, &k), &a.hmac(&m, &k))?;
                }
                Ok(())
            });
        }
        for k in 0..=2 * a.block() + 3 {
            for n in [0, 1, a.block(), 150] {
                r.case(&format!("key-length/{}/{}/{}", i, k, n), |g| {
                    let (key, m) = (message(g, k), message(g, n));
                    eq(|| format!("hmac {:?} key {} message {}", a, hex(&key), hex(&m)), &code_mac(a, &key, &m), &a.hmac(&key, &m))
                });
            }
        }
    }
    for (i, a) in base.iter().enumerate() {
        for n in [1 << 12, (1 << 16) + 1, (1 << 20) + 3] {
            r.case(&format!("long/{}/{}", i, n), |_| {
                let m = pattern(n);
                eq(|| format!("hmac {:?} key = the {} bytes i*2654435761>>13, message 01", a, n), &code_mac(a, &m, &[1]), &a.hmac(&m, &[1]))?;
                eq(|| format!("hmac {:?} key 01, message = the {} bytes i*2654435761>>13", a, n), &code_mac(a, &[1], &m), &a.hmac(&[1], &m))
            });
        }
        for j in 0..40 {
            r.case(&format!("views/{}/{}", i, j), |g| {
                let n = g.range(0, 3 * a.block());
                let buffer = message(g, n);
                let (k, m) = (view(g, n), view(g, n));
                eq(|| format!("hmac {:?} key bytes {:?} and message bytes {:?} of one buffer {}", a, k, m, hex(&buffer)), &code_mac(a, &buffer[k.clone()], &buffer[m.clone()]), &a.hmac(&buffer[k.clone()], &buffer[m.clone()]))
            });
        }
        r.case(&format!("threads/{}", i), |g| {
            let ks: Vec<(Vec<u8>, Vec<u8>)> = (0..8).map(|j| (g.bytes(20 * j), g.bytes(50 + j))).collect();
            let out: Vec<Result<(), String>> = std::thread::scope(|s| {
                let hs: Vec<_> = ks.iter().map(|(k, m)| s.spawn(move || {
                    let want = a.hmac(k, m);
                    for _ in 0..40 {
                        eq(|| format!("hmac {:?} key {} message {} in one of eight threads", a, hex(k), hex(m)), &code_mac(a, k, m), &want)?;
                    }
                    Ok(())
                })).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panicked in a thread".into()))).collect()
            });
            out.into_iter().collect()
        });
    }
    for (i, a) in base.iter().enumerate() {
        for j in 0..120 {
            r.case(&format!("alike/{}/{}", i, j), |g| {
                let (k, n) = (g.range(0, 2 * a.block() + 40), g.range(0, 100));
                let (k0, m0) = (message(g, k), message(g, n));
                let (mut key, mut m) = (k0.clone(), m0.clone());
                for _ in 0..10 {
                    eq(|| format!("hmac {:?} key {} message {} after others", a, hex(&key), hex(&m)), &code_mac(a, &key, &m), &a.hmac(&key, &m))?;
                    match g.below(6) { 0 => { key = k0.clone(); m = m0.clone(); } 1 => std::mem::swap(&mut key, &mut m), 2 | 3 => key = relative(g, &key, a.block()), _ => m = relative(g, &m, a.block()) }
                }
                Ok(())
            });
        }
    }
    let mut i = 0;
    while r.time_left() && i < 20_000 {
        r.case(&format!("random/{}", i), |g| {
            let (k, n) = (g.range(0, 400), g.range(0, 500));
            let (key, m) = (message(g, k), message(g, n));
            for a in algs(g) {
                eq(|| format!("hmac {:?} key {} message {}", a, hex(&key), hex(&m)), &code_mac(&a, &key, &m), &a.hmac(&key, &m))?;
            }
            Ok(())
        });
        i += 1;
    }
}
pub fn hkdf(r: &mut Runner) {
    // the contract of vp_ceil_div, on its whole domain
    r.case("ceil-contract/all", |_| {
        for b in 1..=128usize {
            for a in 0..=255 * 128usize {
                if f64::ceil(a as f64 / b as f64) as usize != (a + b - 1) / b {
                    return Err(format!("ceil({}/{})", a, b));
                }
            }
        }
        Ok(())
    });
    let base = algs(&mut r.rng("algs"));
    let chk = |a: &Alg, s: &[u8], k: &[u8], l: usize, info: &[u8]| {
        let got = code_kdf(a, s, k, l, info);
        eq(|| format!("hkdf {:?} salt {} ikm {} length {} info {}", a, hex(s), hex(k), l, hex(info)), &got, &a.hkdf(s, k, l, info))
    };
    for (i, a) in base.iter().enumerate() {
        for l in 0..=3 * a.out() + 2 {
            r.case(&format!("length/{}/{}", i, l), |g| {
                let (n1, n2, n3) = (g.range(0, 70), g.range(0, 70), g.range(0, 20));
                chk(a, &g.bytes(n1), &g.bytes(n2), l, &g.bytes(n3))
            });
        }
        for l in [127 * a.out(), 128 * a.out(), 128 * a.out() + 1, 200 * a.out() + 1, 254 * a.out(), 255 * a.out() - 1, 255 * a.out()] {
            r.case(&format!("max/{}/{}", i, l), |g| chk(a, &g.bytes(13), &g.bytes(22), l, &g.bytes(10)));
        }
    }
    for (i, a) in base.iter().enumerate() {
        for n in dict_sizes(0, 1 << 20) {
            r.case(&format!("named/{}/{}", i, n), |g| {
                let m = if n < 10000 { message(g, n) } else { pattern(n) };
                let s = message(g, 20);
                let l = g.range(0, 3 * a.out());
                chk(a, &m, &s, l, &[])?;
                chk(a, &s, &m, l, &[])?;
                chk(a, &s, &s, l, &m)?;
                if n <= 255 * a.out() { chk(a, &s, &[5; 30], n, &s)?; }
                Ok(())
            });
        }
    }
    // every combination of empty, short, block-sized and long salt, key material and info
    for (i, a) in base.iter().enumerate() {
        let b = a.block();
        let ns = [0, 1, a.out(), b - 1, b, b + 1, 2 * b + 1, 700];
        for x in ns {
            for y in ns {
                r.case(&format!("sizes/{}/{}/{}", i, x, y), |g| {
                    let z = ns[g.below(8) as usize];
                    let l = [1, a.out(), a.out() + 1, 3 * a.out()][g.below(4) as usize];
                    chk(a, &message(g, x), &message(g, y), l, &message(g, z))
                });
            }
        }
        for j in 0..120 {
            r.case(&format!("alike/{}/{}", i, j), |g| {
                let n: Vec<usize> = (0..3).map(|_| g.range(0, 80)).collect();
                let start: Vec<Vec<u8>> = n.iter().map(|n| message(g, *n)).collect();
                let (mut v, mut l) = (start.clone(), g.range(0, 3 * a.out()));
                for _ in 0..10 {
                    chk(a, &v[0], &v[1], l, &v[2])?;
                    match g.below(8) { 0 => v = start.clone(), 1 => l = g.range(0, 3 * a.out()), 2 => v.swap(0, 1), 3 => v.swap(1, 2), 4 => v[0] = relative(g, &v[0], 40), 5 => v[1] = relative(g, &v[1], 40), _ => v[2] = relative(g, &v[2], 40) }
                }
                Ok(())
            });
        }
        for j in 0..40 {
            r.case(&format!("views/{}/{}", i, j), |g| {
                let n = g.range(0, 3 * a.block());
                let buffer = message(g, n);
                let (x, y, z, l) = (view(g, n), view(g, n), view(g, n), g.range(0, 3 * a.out()));
                let (x, y, z) = (&buffer[x], &buffer[y], &buffer[z]);
                chk(a, x, y, l, z)?;
                // all from one place
                chk(a, x, x, l, x)
            });
        }
        r.case(&format!("long/{}", i), |_| {
            let m = pattern((1 << 16) + 7);
            chk(a, &[1], &m, 70.min(255 * a.out()), &[])?;
            chk(a, &[1], &[2], 70.min(255 * a.out()), &m)
        });
    }
    let mut i = 0;
    while r.time_left() && i < 5000 {
        r.case(&format!("random/{}", i), |g| {
            let (n1, n2, n3) = (g.range(0, 300), g.range(0, 300), g.range(0, 100));
            let (s, k, f) = (message(g, n1), message(g, n2), message(g, n3));
            for a in algs(g) {
                let l = g.range(0, 255 * a.out());
                chk(&a, &s, &k, l.min(600), &f)?;
            }
            Ok(())
        });
        i += 1;
    }
}
fn main() {
    harness::main_with(|r| {
        match r.property.clone().as_str() {
            "H01" => md5(r),
            "H02" => sha1(r),
            "H03" => blake2b(r),
            "H04" => blake2s(r),
            "H05" => streaming(r),
            "H06" => hmac(r),
            "H07" => hkdf(r),
            _ => return false,
        }
        true
    })
}
