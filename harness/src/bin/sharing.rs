//! S01..S09: secret sharing and the protocols on shares, run by several parties over simulated channels
#![allow(clippy::all)]
#![recursion_limit = "512"]
use futures::Future;
use harness::refmath::*;
use harness::run::*;
use jester_maths::prime::*;
use jester_maths::prime_fields;
use jester_sharing::beaver_randomization_multiplication::*;
use jester_sharing::inversion::unbounded_inversion::JointUnboundedInversion;
use jester_sharing::joint_conditional_selection::JointConditionalSelection;
use jester_sharing::joint_unbounded_or::JointUnboundedOrFunction;
use jester_sharing::shamir_secret_sharing::ShamirSecretSharingScheme;
use jester_sharing::sum_random_number_generation::SumRandomNumberGeneration;
use jester_sharing::*;
use mashup::*;
use num::{BigInt, BigUint, One, ToPrimitive, Zero};
use std::collections::{BTreeMap, BTreeSet};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

prime_fields!(pub Q5("5", 10), pub Q11("11", 10), pub Q13("13", 10), pub Q19("19", 10), pub Q101("101", 10), pub Q64("18446744073709551557", 10), pub Q256("115792089237316195423570985008687907853269984665640564039457584007908834671663", 10));

pub trait Fld: PrimeField + PartialEq + Send + Sync + Clone + std::fmt::Debug + 'static {}
impl<T: PrimeField + PartialEq + Send + Sync + Clone + std::fmt::Debug + 'static> Fld for T {}
type Sh<F> = (usize, F);
fn el<F: Fld>(x: &BigUint) -> F {
    x.clone().into()
}
fn up<F: Fld>(x: &F) -> BigUint {
    x.as_uint()
}
fn prime<F: Fld>() -> BigUint {
    F::field_prime().as_uint()
}
macro_rules! each {
    ($r:ident, $f:ident) => {{
        $f::<Q5>($r, "Q5"); $f::<Mersenne3>($r, "Mersenne3"); $f::<Q11>($r, "Q11"); $f::<Q13>($r, "Q13"); $f::<Q19>($r, "Q19"); $f::<Q101>($r, "Q101"); $f::<Mersenne31>($r, "Mersenne31"); $f::<Q64>($r, "Q64"); $f::<Mersenne127>($r, "Mersenne127"); $f::<Q256>($r, "Q256");
    }};
}

// ---------------------------------------------------------------- reference polynomials
fn poly(g: &mut Rng, p: &BigUint, secret: &BigUint, t: usize) -> Vec<BigUint> {
    let mut c = vec![secret % p];
    for _ in 1..t {
        c.push(below(g, p));
    }
    c
}
fn horner(c: &[BigUint], x: usize, p: &BigUint) -> BigUint {
    c.iter().rev().fold(BigUint::zero(), |a, k| (a * big(x as u64) + k) % p)
}
/// value at `at` of the polynomial through the points
fn lagrange(pts: &[(usize, BigUint)], at: usize, p: &BigUint) -> BigUint {
    let mut s = BigUint::zero();
    for (i, (xi, yi)) in pts.iter().enumerate() {
        let (mut n, mut d) = (BigUint::one(), BigUint::one());
        for (j, (xj, _)) in pts.iter().enumerate() {
            if i != j {
                n = n * md(BigInt::from(at) - BigInt::from(*xj), p) % p;
                d = d * md(BigInt::from(*xi) - BigInt::from(*xj), p) % p;
            }
        }
        s = (s + yi * n % p * inv(&d, p).expect("distinct indices")) % p;
    }
    s
}
/// coefficients of the polynomial of degree below the number of points
fn coefficients(pts: &[(usize, BigUint)], p: &BigUint) -> Vec<BigUint> {
    let k = pts.len();
    let mut m: Vec<Vec<BigUint>> = pts
        .iter()
        .map(|(x, y)| {
            let mut r: Vec<BigUint> = vec![];
            let mut e = BigUint::one();
            for _ in 0..k {
                r.push(e.clone());
                e = e * big(*x as u64) % p;
            }
            r.push(y.clone());
            r
        })
        .collect();
    for c in 0..k {
        let r = (c..k).find(|r| !m[*r][c].is_zero()).unwrap();
        m.swap(c, r);
        let iv = inv(&m[c][c], p).unwrap();
        for j in c..=k {
            m[c][j] = &m[c][j] * &iv % p;
        }
        for r in 0..k {
            if r != c && !m[r][c].is_zero() {
                let f = m[r][c].clone();
                for j in c..=k {
                    m[r][j] = md(BigInt::from(m[r][j].clone()) - BigInt::from(&f * &m[c][j]), p);
                }
            }
        }
    }
    (0..k).map(|r| m[r][k].clone()).collect()
}
fn permutation(g: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        v.swap(i, g.range(0, i));
    }
    v
}

// ---------------------------------------------------------------- parties
struct Net<F> {
    n: usize,
    t: usize,
    p: BigUint,
    g: Rng,
    opens: Vec<Vec<Option<Sh<F>>>>,
    open_at: Vec<usize>,
    opened: Vec<Option<BigUint>>,
    dist: Vec<Vec<Option<Vec<Sh<F>>>>>,
    dist_at: Vec<usize>,
    contributions: Vec<Vec<BigUint>>,
    triples: Vec<(BigUint, BigUint, Vec<(Sh<F>, Sh<F>, Sh<F>)>)>,
    triple_at: Vec<usize>,
    moves: u64,
    bad: Option<String>,
    /// what a zero mask may look like: contributions are forced to these sums
    _f: std::marker::PhantomData<F>,
}
type Nt<F> = Arc<Mutex<Net<F>>>;
impl<F: Fld> Net<F> {
    fn new(g: &mut Rng, n: usize, t: usize) -> Nt<F> {
        Arc::new(Mutex::new(Net { n, t, p: prime::<F>(), g: Rng::new(g.u64()), opens: vec![], open_at: vec![0; n], opened: vec![], dist: vec![], dist_at: vec![0; n], contributions: vec![], triples: vec![], triple_at: vec![0; n], moves: 0, bad: None, _f: Default::default() }))
    }
    fn share(&mut self, s: &BigUint) -> Vec<Sh<F>> {
        let c = poly(&mut self.g, &self.p, s, self.t);
        (1..=self.n).map(|x| (x, el(&horner(&c, x, &self.p)))).collect()
    }
    /// the secret behind one share per party, if they are shares of one secret
    fn secret(&mut self, v: &[Sh<F>]) -> Result<BigUint, String> {
        let pts: Vec<(usize, BigUint)> = v.iter().map(|s| (s.0, up(&s.1))).collect();
        for (i, s) in pts.iter().enumerate() {
            if s.0 != i + 1 {
                return Err(format!("party {} holds a share with index {}", i + 1, s.0));
            }
        }
        // the polynomial through the first t shares, which the others must lie on
        let c = coefficients(&pts[..self.t.min(pts.len())], &self.p);
        if pts.iter().any(|(x, y)| horner(&c, *x, &self.p) != *y) {
            return Err(format!("the {} shares {:?} do not lie on a polynomial of degree below {}", self.n, pts, self.t));
        }
        Ok(c[0].clone())
    }
    fn mask_sums(&self) -> Vec<BigUint> {
        self.contributions.iter().map(|c| c.iter().fold(BigUint::zero(), |a, b| (a + b) % &self.p)).collect()
    }
    fn openings(&self) -> Vec<BigUint> {
        self.opened.iter().map(|o| o.clone().unwrap()).collect()
    }
}
pub struct Party<F> {
    id: usize,
    net: Nt<F>,
}
struct WaitOpen<F>(Nt<F>, usize);
impl<F: Fld> Future for WaitOpen<F> {
    type Output = F;
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<F> {
        let mut n = self.0.lock().unwrap();
        let k = self.1;
        if n.opened[k].is_none() && n.opens[k].iter().all(|x| x.is_some()) {
            let v: Vec<Sh<F>> = n.opens[k].iter().map(|x| x.clone().unwrap()).collect();
            let s = match n.secret(&v) {
                Ok(s) => s,
                Err(e) => {
                    n.bad = Some(format!("opening number {}: {}", k, e));
                    BigUint::zero()
                }
            };
            n.opened[k] = Some(s);
        }
        match &n.opened[k] {
            Some(s) => Poll::Ready(el(s)),
            None => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
}
struct WaitDist<F>(Nt<F>, usize, usize);
impl<F: Fld> Future for WaitDist<F> {
    type Output = Vec<Sh<F>>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Vec<Sh<F>>> {
        let n = self.0.lock().unwrap();
        if n.dist[self.1].iter().all(|x| x.is_some()) {
            Poll::Ready(n.dist[self.1].iter().map(|v| v.as_ref().unwrap()[self.2].clone()).collect())
        } else {
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}
impl<F: Fld> ShamirSecretSharingScheme<F> for Party<F> {}
impl<F: Fld> CliqueCommunicationScheme<F, Sh<F>> for Party<F> {
    fn reveal_shares(&mut self, share: Sh<F>) -> Pin<Box<dyn Future<Output = F> + Send>> {
        let mut n = self.net.lock().unwrap();
        let k = n.open_at[self.id];
        n.open_at[self.id] += 1;
        n.moves += 1;
        if n.opens.len() <= k {
            let e = vec![None; n.n];
            n.opens.push(e);
            n.opened.push(None);
        }
        n.opens[k][self.id] = Some(share);
        Box::pin(WaitOpen(self.net.clone(), k))
    }
    fn distribute_secret(&mut self, secret: F) -> Pin<Box<dyn Future<Output = Vec<Sh<F>>> + Send>> {
        let mut n = self.net.lock().unwrap();
        let k = n.dist_at[self.id];
        n.dist_at[self.id] += 1;
        n.moves += 1;
        if n.dist.len() <= k {
            let e = vec![None; n.n];
            n.dist.push(e);
            let z = vec![BigUint::zero(); n.n];
            n.contributions.push(z);
        }
        let s = up(&secret);
        let v = n.share(&s);
        n.dist[k][self.id] = Some(v);
        n.contributions[k][self.id] = s;
        Box::pin(WaitDist(self.net.clone(), k, self.id))
    }
}
impl<F: Fld> BeaverCommunicationScheme<Sh<F>> for Party<F> {
    fn get_reconstruction_threshold(&self) -> usize {
        self.net.lock().unwrap().t
    }
    fn obtain_beaver_triples<'a>(&'a mut self, count: usize) -> Pin<Box<dyn Future<Output = Vec<(Sh<F>, Sh<F>, Sh<F>)>> + Send + 'a>> {
        let mut n = self.net.lock().unwrap();
        let at = n.triple_at[self.id];
        while n.triples.len() < at + count {
            let p = n.p.clone();
            let (a, b) = (below(&mut n.g, &p), below(&mut n.g, &p));
            let c = &a * &b % &p;
            let (x, y, z) = (n.share(&a), n.share(&b), n.share(&c));
            let v = (0..n.n).map(|i| (x[i].clone(), y[i].clone(), z[i].clone())).collect();
            n.triples.push((a, b, v));
        }
        n.triple_at[self.id] += count;
        n.moves += 1;
        let v: Vec<_> = n.triples[at..at + count].iter().map(|t| t.2[self.id].clone()).collect();
        Box::pin(async move { v })
    }
}
macro_rules! delegate {
    ($m:ident, $d:ident, $to:ident, [$($b:tt)*], [$($s:tt)*]) => {
        impl<F> $m for Party<F> { type Marker = Delegate; }
        impl<F, T, S, P> $d<T, S, P> for Party<F>
        where P: ThresholdSecretSharingScheme<T, S> + LinearSharingScheme<T, S> + CliqueCommunicationScheme<T, S> $($b)*, T: PrimeField + Send + Sync + 'static, S: $($s)* 'static
        { type Delegate = $to<T, S, P>; }
    };
}
delegate!(MultiplicationSchemeMarker, MultiplicationSchemeDelegate, BeaverRerandomizationMultiplication, [+ BeaverCommunicationScheme<S> + Send + Sync], [Clone + Send + Sync +]);
delegate!(UnboundedMultiplicationSchemeMarker, UnboundedMultiplicationSchemeDelegate, BeaverRerandomizationMultiplication, [+ BeaverCommunicationScheme<S> + Send + Sync], [Clone + Send + Sync +]);
delegate!(RandomNumberGenerationSchemeMarker, RandomNumberGenerationSchemeDelegate, SumRandomNumberGeneration, [], []);
delegate!(InversionSchemeMarker, InversionSchemeDelegate, JointUnboundedInversion, [+ UnboundedMultiplicationScheme<T, S, P> + RandomNumberGenerationScheme<T, S, P> + Send + Sync], [Clone + Send + Sync +]);
delegate!(UnboundedInversionSchemeMarker, UnboundedInversionSchemeDelegate, JointUnboundedInversion, [+ UnboundedMultiplicationScheme<T, S, P> + RandomNumberGenerationScheme<T, S, P> + Send + Sync], [Clone + Send + Sync +]);
delegate!(OrFunctionSchemeMarker, OrFunctionSchemeDelegate, JointUnboundedOrFunction, [+ UnboundedMultiplicationScheme<T, S, P> + RandomNumberGenerationScheme<T, S, P> + UnboundedInversionScheme<T, S, P> + Send + Sync], [Clone + Send + Sync +]);
delegate!(UnboundedOrFunctionSchemeMarker, UnboundedOrFunctionSchemeDelegate, JointUnboundedOrFunction, [+ UnboundedMultiplicationScheme<T, S, P> + RandomNumberGenerationScheme<T, S, P> + UnboundedInversionScheme<T, S, P> + Send + Sync], [Clone + Send + Sync +]);
delegate!(ConditionalSelectionSchemeMarker, ConditionalSelectionSchemeDelegate, JointConditionalSelection, [+ MultiplicationScheme<T, S, P> + Send + Sync], [Clone + Send + Sync +]);

/// poll the parties in random order until all have finished
thread_local! { static PATIENCE: std::cell::Cell<u64> = std::cell::Cell::new(!0); }
/// runs that are given up midway, shares that fit no polynomial, parameters no scheme takes
fn disturb(prop: &str, g: &mut Rng) {
    fn on<F: Fld>(prop: &str, g: &mut Rng) {
        let single = g.below(2) == 0;
        let p = prime::<F>();
        let x: Vec<F> = (0..4).map(|_| el(&below(g, &p))).collect();
        let (a, b) = (g.range(0, 6), g.range(0, 6));
        match if ["S01", "S02", "S03"].contains(&prop) { g.below(4) } else { g.below(6) } {
            0 => try_call(|| <Party<F> as ThresholdSecretSharingScheme<F, Sh<F>>>::reconstruct_secret(&[(1, x[0].clone()), (1, x[1].clone()), (2, x[2].clone())], 3)),
            1 => try_call(|| <Party<F> as ThresholdSecretSharingScheme<F, Sh<F>>>::reconstruct_secret(&[(1, x[0].clone()), (2, x[1].clone())], 3)),
            2 => try_call(|| <Party<F> as ThresholdSecretSharingScheme<F, Sh<F>>>::reconstruct_secret(&[(0, x[0].clone()), (2, x[1].clone())], b)),
            3 => {
                let k = g.below(12);
                let mut rng = Failing(TestRng::new(g), if k > 5 { !0 } else { k });
                try_call(|| <Party<F> as ThresholdSecretSharingScheme<F, Sh<F>>>::generate_shares(&mut rng, &x[0], a, b));
            }
            _ => {
                let k = g.below(8);
                PATIENCE.with(|p| p.set(k));
                try_call(|| match prop {
                    "S04" => s04_case::<F>(g, single).is_ok(),
                    "S05" => s05_case::<F>(g, single).is_ok(),
                    "S06" => or_once::<F>(g, 1 + a).is_ok(),
                    _ => s07_case::<F>(g).is_ok(),
                });
                PATIENCE.with(|p| p.set(!0));
            }
        }
    }
    for _ in 0..g.range(1, 2) {
        match g.below(4) {
            0 => on::<Q11>(prop, g),
            1 => on::<Q101>(prop, g),
            2 => on::<Q64>(prop, g),
            _ => on::<Mersenne127>(prop, g),
        }
    }
}
fn drive<F: Fld, O>(g: &mut Rng, net: &Nt<F>, mut futs: Vec<Pin<Box<dyn Future<Output = O> + '_>>>) -> Result<Vec<O>, String> {
    let mut out: Vec<Option<O>> = futs.iter().map(|_| None).collect();
    let mut cx = Context::from_waker(Waker::noop());
    let mut idle = 0;
    let mut since = std::time::Instant::now();
    while out.iter().any(|o| o.is_none()) {
        if PATIENCE.with(|p| p.get() == 0) {
            return Err("given up".into());
        }
        PATIENCE.with(|p| p.set(p.get() - 1));
        let before = net.lock().unwrap().moves;
        let mut done = false;
        for i in permutation(g, futs.len()) {
            if out[i].is_none() {
                if let Poll::Ready(v) = futs[i].as_mut().poll(&mut cx) {
                    out[i] = Some(v);
                    done = true;
                }
            }
        }
        idle = if done || net.lock().unwrap().moves != before { 0 } else { idle + 1 };
        if done || net.lock().unwrap().moves != before {
            since = std::time::Instant::now();
        }
        // other threads may hold the process-wide tables for a while
        if idle > 64 && since.elapsed() > std::time::Duration::from_millis(if r_threads() { 20000 } else { 100 }) {
            return Err("the parties wait for each other for ever".into());
        }
    }
    if let Some(b) = &net.lock().unwrap().bad {
        return Err(b.clone());
    }
    Ok(out.into_iter().map(|o| o.unwrap()).collect())
}
fn r_threads() -> bool {
    std::env::args().nth(1).map_or(false, |x| x == "--replay")
}
fn parties<F: Fld>(net: &Nt<F>) -> Vec<Party<F>> {
    (0..net.lock().unwrap().n).map(|id| Party { id, net: net.clone() }).collect()
}
/// (threshold, parties) that fit the field
fn setup(g: &mut Rng, p: &BigUint, max: usize) -> (usize, usize) {
    let m = p.to_u64().map_or(max, |x| ((x - 1) as usize).min(max));
    let n = g.range(2, m.max(2));
    (g.range(2, n), n)
}
fn by_party<F: Clone>(v: &[Vec<F>], i: usize) -> Vec<F> {
    v.iter().map(|s| s[i].clone()).collect()
}
fn value(g: &mut Rng, p: &BigUint) -> BigUint {
    match g.below(6) {
        0 => big(0),
        1 => big(1),
        2 => p - big(1),
        3 => shaped(g, p),
        _ => below(g, p),
    }
}

// ---------------------------------------------------------------- S01
/// positions among n shares whose index is at either end or next to a power of two, in increasing order
fn tellers(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n - 2, n - 1];
    for k in [7usize, 8, 15, 16] { for d in 0..3 { v.push((1 << k) - 2 + d); } }
    v.retain(|i| *i < n);
    v.sort();
    v.dedup();
    v
}
fn s01_case<F: Fld>(g: &mut Rng, t: usize, n: usize) -> Result<(), String> {
    let p = prime::<F>();
    let s = value(g, &p);
    let mut rng = TestRng::new(g);
    let sh = <Party<F> as ThresholdSecretSharingScheme<F, Sh<F>>>::generate_shares(&mut rng, &el(&s), n, t);
    let ctx = format!("secret {} modulo {}, threshold {}, {} shares", s, p, t, n);
    if sh.len() != n {
        return Err(format!("{}: {} shares were generated", ctx, sh.len()));
    }
    let pts: Vec<(usize, BigUint)> = sh.iter().map(|x| (x.0, up(&x.1))).collect();
    let ix: BTreeSet<BigUint> = pts.iter().map(|x| big(x.0 as u64) % &p).collect();
    if ix.len() != n || ix.contains(&big(0)) {
        return Err(format!("{}: the indices {:?} are not distinct and non-zero in the field", ctx, pts.iter().map(|x| x.0).collect::<Vec<_>>()));
    }
    let few: Vec<(usize, BigUint)> = if n > 60 { let mut i: Vec<usize> = tellers(n).into_iter().chain(permutation(g, n).into_iter().take(t + 6)).collect(); i.sort(); i.dedup(); i.iter().map(|k| pts[*k].clone()).collect() } else { pts.clone() };
    let c = coefficients(&few, &p);
    if c[0] != s || c[t..].iter().any(|x| !x.is_zero()) {
        return Err(format!("{}: the shares {:?} are not the values of a polynomial of degree below {} with that constant term", ctx, pts, t));
    }
    for round in 0..4 {
        let k = if round == 0 { t } else { g.range(t, n.min(t + 30)) };
        let mut order = permutation(g, n);
        if n > 60 && round % 2 == 1 { let mut l: Vec<usize> = tellers(n); l.reverse(); order.retain(|i| !l.contains(i)); l.extend(order); order = l; }
        let sel: Vec<Sh<F>> = order.into_iter().take(k).map(|i| sh[i].clone()).collect();
        for th in [t, k] {
            let r = up(&<Party<F> as ThresholdSecretSharingScheme<F, Sh<F>>>::reconstruct_secret(&sel, th));
            if r != s {
                return Err(format!("{}: reconstructing with threshold {} from the shares of {:?} gave {}", ctx, th, sel.iter().map(|x| x.0).collect::<Vec<_>>(), r));
            }
        }
    }
    Ok(())
}
fn s01<F: Fld>(r: &mut Runner, name: &str) {
    let small = prime::<F>().to_u64().map_or(24, |x| x - 1).min(if r.deep { 40 } else { 9 }) as usize;
    if prime::<F>() > big(10000) {
        for d in dict_sizes(2, 2000) {
            r.case(&format!("named/{}/{}", name, d), |g| {
                if d <= 80 { s01_case::<F>(g, d, d + 2)?; }
                if d <= 80 { let t = g.range(2, d); s01_case::<F>(g, t, d)?; }
                s01_case::<F>(g, 2, d + 1)
            });
        }
    }
    for n in 2..=small {
        for t in 2..=n {
            if !r.stop() {
                r.case(&format!("all/{}/{}of{}", name, t, n), |g| s01_case::<F>(g, t, n));
            }
        }
    }
}
fn s01_more<F: Fld>(r: &mut Runner, name: &str, k: u64) {
    r.case(&format!("random/{}/{}", name, k), |g| {
        let p = prime::<F>();
        if k == 1 && p > BigUint::one() << 30usize && p.bits() < 70 {
            // more shares than a 16 bit index can name, and thresholds around the powers of two
            s01_case::<F>(g, 2, 65536 + 5)?;
            for t in [16usize, 17, 32, 33, 64, 65, 128] { s01_case::<F>(g, t, t + 3)?; }
        }
        if g.below(16) == 0 && p > big(10000) {
            let (t, n) = (g.range(2, 6), g.range(100, 600));
            return s01_case::<F>(g, t, n);
        }
        let m = if g.below(8) == 0 { 40 } else { 14 };
        let (t, n) = setup(g, &p, m);
        s01_case::<F>(g, t, n)
    });
}

// ---------------------------------------------------------------- S02
/// chi-square style bound: far beyond any deviation of uniform draws of this size
fn uniform(counts: &[u64], total: u64, what: &str) -> Result<(), String> {
    let e = total as f64 / counts.len() as f64;
    let chi: f64 = counts.iter().map(|c| (*c as f64 - e) * (*c as f64 - e) / e).sum();
    let df = counts.len() as f64 - 1.0;
    // mean df, standard deviation sqrt(2 df); 8 deviations plus slack for small df
    if chi > df + 8.0 * (2.0 * df).sqrt() + 20.0 {
        return Err(format!("{} are not uniform: {} draws over {} possibilities, chi-square {:.0} (expected about {:.0}), counts {:?}", what, total, counts.len(), chi, df, &counts[..counts.len().min(30)]));
    }
    Ok(())
}
fn coefs<F: Fld>(rng: &mut TestRng, s: &BigUint, t: usize, n: usize, p: &BigUint) -> Result<Vec<BigUint>, String> {
    let sh = <Party<F> as ThresholdSecretSharingScheme<F, Sh<F>>>::generate_shares(rng, &el(s), n, t);
    let pts: Vec<(usize, BigUint)> = sh.iter().take(t).map(|x| (x.0, up(&x.1))).collect();
    Ok(coefficients(&pts, p)[1..].to_vec())
}
fn s02<F: Fld>(r: &mut Runner, name: &str) {
    let p = prime::<F>();
    let small = p.to_u64().map_or(u64::max_value(), |x| x);
    for t in 2..=6usize {
        let n = t;
        if n as u64 >= small { continue; }
        // joint distribution of the coefficients, and of what t - 1 parties see
        let cells = (small as f64).powi(t as i32 - 1);
        if cells <= if r.deep { 3000.0 } else { 400.0 } {
            r.case(&format!("joint/{}/{}", name, t), |g| {
                let total = (cells as u64 * 30).max(4000);
                for s in [big(0), below(g, &p)] {
                    let mut cnt = vec![0u64; cells as usize];
                    let mut rng = TestRng::new(g);
                    let mut seen = vec![0u64; cells as usize];
                    for _ in 0..total {
                        let c = coefs::<F>(&mut rng, &s, t, n, &p)?;
                        let i = c.iter().fold(0u64, |a, x| a * small + x.to_u64().unwrap());
                        cnt[i as usize] += 1;
                        let mut full = vec![s.clone()];
                        full.extend(c);
                        let v = (2..=t).fold(0u64, |a, x| a * small + horner(&full, x, &p).to_u64().unwrap());
                        seen[v as usize] += 1;
                    }
                    uniform(&cnt, total, &format!("the {} coefficients chosen modulo {} with threshold {}", t - 1, p, t))?;
                    uniform(&seen, total, &format!("the shares of parties 2..{} modulo {} with threshold {} and secret {}", t, p, t, s))?;
                }
                Ok(())
            });
        }
        // large thresholds: fresh coefficients all the way
        if t == 2 && p > BigUint::one() << 50usize {
            r.case(&format!("degree/{}", name), |g| {
                for t in [7usize, 8, 9, 10, 15, 16, 17, 18, 24, 31, 32, 33, 34, 40] {
                    let mut distinct = BTreeSet::new();
                    let mut a = TestRng::new(g);
                    let mut b = a.clone();
                    let (s1, s2) = (value(g, &p), value(g, &p));
                    let c = coefs::<F>(&mut a, &s1, t, t + 1, &p)?;
                    let d = coefs::<F>(&mut b, &s2, t, t, &p)?;
                    if c != d { return Err(format!("modulo {} with threshold {} the coefficients depend on the secret: {:?} for secret {}, {:?} for secret {}", p, t, c, s1, d, s2)); }
                    let (mut high, mut odd) = (0, 0);
                    for x in &c {
                        if !distinct.insert(x.clone()) || *x < &p >> 40usize { return Err(format!("modulo {} with threshold {} a coefficient repeats or is small: {}", p, t, x)); }
                        high += (x > &(&p >> 1usize)) as usize;
                        odd += num::Integer::is_odd(x) as usize;
                    }
                    if t > 30 && (high == 0 || odd == 0 || high == c.len() || odd == c.len()) { return Err(format!("modulo {} with threshold {} the coefficients are not uniform: {:?}", p, t, c)); }
                }
                Ok(())
            });
        }
        r.case(&format!("coefficients/{}/{}", name, t), |g| {
            let total = 600u64;
            let (mut hi, mut par) = (vec![vec![0u64; 4]; t - 1], vec![vec![0u64; 4]; t - 1]);
            let mut pairs = vec![0u64; 4];
            let small_field = p < big(1000);
            let mut zero = vec![0u64; t - 1];
            let mut distinct = BTreeSet::new();
            for _ in 0..total {
                let mut a = TestRng::new(g);
                let mut b = a.clone();
                let (s1, s2) = (value(g, &p), value(g, &p));
                let c = coefs::<F>(&mut a, &s1, t, n, &p)?;
                let d = coefs::<F>(&mut b, &s2, t, n, &p)?;
                if c != d {
                    return Err(format!("modulo {} with threshold {} the coefficients depend on the secret: {:?} for secret {}, {:?} for secret {}", p, t, c, s1, d, s2));
                }
                for (i, x) in c.iter().enumerate() {
                    hi[i][(x * big(4) / &p).to_u64().unwrap() as usize] += 1;
                    par[i][(x % big(4)).to_u64().unwrap() as usize] += 1;
                    zero[i] += x.is_zero() as u64;
                    if !small_field && !distinct.insert(x.clone()) {
                        return Err(format!("modulo {} with threshold {} a coefficient repeats: {}", p, t, x));
                    }
                }
                if t > 2 {
                    pairs[((&c[0] * big(2) / &p).to_u64().unwrap() * 2 + (&c[1] * big(2) / &p).to_u64().unwrap()) as usize] += 1;
                }
            }
            if !small_field {
                for i in 0..t - 1 {
                    uniform(&hi[i], total, &format!("the quarters of coefficient {} modulo {} with threshold {}", i + 1, p, t))?;
                    uniform(&par[i], total, &format!("the low bits of coefficient {} modulo {} with threshold {}", i + 1, p, t))?;
                }
                if t > 2 {
                    uniform(&pairs, total, &format!("the halves of the first two coefficients modulo {} with threshold {}", p, t))?;
                }
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- S03
fn s03_case<F: Fld>(g: &mut Rng) -> Result<(), String> {
    let p = prime::<F>();
    let (t, n) = if g.below(200) == 0 && p > big(10000) { (g.range(2, 4), g.range(250, 300)) } else { setup(g, &p, 9) };
    let net = Net::<F>::new(g, n, t);
    let mut net = net.lock().unwrap();
    // registers: the plain value and one share per party
    let mut regs: Vec<(BigUint, Vec<Sh<F>>, String)> = vec![];
    for _ in 0..g.range(1, 4) {
        let s = value(g, &p);
        regs.push((s.clone(), net.share(&s), s.to_string()));
    }
    type L<F> = Party<F>;
    for step in 0..g.range(1, 12) {
        let (i, j) = (g.range(0, regs.len() - 1), g.range(0, regs.len() - 1));
        let k = value(g, &p);
        let kf: F = el(&k);
        let (a, b) = (&regs[i], &regs[j]);
        let (v, sh, d): (BigUint, Vec<Sh<F>>, String) = match g.below(6) {
            0 => ((&a.0 + &b.0) % &p, a.1.iter().zip(&b.1).map(|(x, y)| <L<F> as LinearSharingScheme<F, Sh<F>>>::add_shares(x, y)).collect(), format!("({} + {})", a.2, b.2)),
            1 => ((&a.0 + &p - &b.0) % &p, a.1.iter().zip(&b.1).map(|(x, y)| <L<F> as LinearSharingScheme<F, Sh<F>>>::sub_shares(x, y)).collect(), format!("({} - {})", a.2, b.2)),
            2 => ((&a.0 + &k) % &p, a.1.iter().map(|x| <L<F> as LinearSharingScheme<F, Sh<F>>>::add_scalar(x, &kf)).collect(), format!("({} + const {})", a.2, k)),
            3 => ((&a.0 + &p - &k) % &p, a.1.iter().map(|x| <L<F> as LinearSharingScheme<F, Sh<F>>>::sub_scalar(x, &kf)).collect(), format!("({} - const {})", a.2, k)),
            4 => ((&a.0 * &k) % &p, a.1.iter().map(|x| <L<F> as LinearSharingScheme<F, Sh<F>>>::multiply_scalar(x, &kf)).collect(), format!("({} * const {})", a.2, k)),
            _ => {
                let m = if g.below(20) == 0 { *g.pick(&[16, 31, 32, 33, 64, 128, 255, 256, 257, 300]) } else { g.range(1, 5) };
                let c: Vec<usize> = (0..m).map(|_| g.range(0, regs.len() - 1)).collect();
                let v = c.iter().fold(BigUint::zero(), |x, y| (x + &regs[*y].0) % &p);
                let mut sh = vec![];
                for q in 0..n {
                    let l: Vec<Sh<F>> = c.iter().map(|y| regs[*y].1[q].clone()).collect();
                    sh.push(<L<F> as LinearSharingScheme<F, Sh<F>>>::sum_shares(&l).ok_or("the sum of several shares is None")?);
                }
                (v, sh, format!("sum of {} registers", m))
            }
        };
        let got = net.secret(&sh).map_err(|e| format!("step {}: {} modulo {} ({} of {}): {}", step, d, p, t, n, e))?;
        let sel: Vec<Sh<F>> = permutation(g, n).into_iter().take(t).map(|i| sh[i].clone()).collect();
        let rec = up(&<L<F> as ThresholdSecretSharingScheme<F, Sh<F>>>::reconstruct_secret(&sel, t));
        if got != v || rec != v {
            return Err(format!("step {}: {} modulo {} ({} of {}) is {}, the shares stand for {} and reconstruct to {}", step, d, p, t, n, v, got, rec));
        }
        regs.push((v, sh, if d.len() > 200 { "...".into() } else { d }));
    }
    if <L<F> as LinearSharingScheme<F, Sh<F>>>::sum_shares(&[]).is_some() {
        return Err("the sum of no shares is not None".into());
    }
    Ok(())
}

/// sums of many shares, and of shares with values of bounded length
fn s03_sums<F: Fld>(g: &mut Rng) -> Result<(), String> {
    type L<F> = Party<F>;
    let p = prime::<F>();
    for _ in 0..12 {
        let named = dict_sizes(1, 5000);
        let m = if !named.is_empty() && g.bool() { *g.pick(&named) } else { *g.pick(&[1usize, 2, 3, 7, 8, 9, 16, 17, 31, 33, 63, 65, 100, 127, 129, 255, 256, 257, 300, 511, 513, 600, 1025]) };
        let k = g.range(1, p.bits());
        let bound = (BigUint::one() << k).min(p.clone());
        let index = g.range(1, 9);
        let full = g.below(3);
        let v: Vec<BigUint> = (0..m).map(|_| match full { 0 => &bound - big(1), 1 => shaped(g, &bound), _ => below(g, &bound) }).collect();
        let l: Vec<Sh<F>> = v.iter().map(|x| (index, el::<F>(x))).collect();
        let got = <L<F> as LinearSharingScheme<F, Sh<F>>>::sum_shares(&l).ok_or("the sum of several shares is None")?;
        let want = v.iter().fold(BigUint::zero(), |a, b| a + b) % &p;
        if got.0 != index || up(&got.1) != want {
            return Err(format!("the sum of {} shares with index {} and values below 2^{} (first {:?}) modulo {} is ({}, {}), expected ({}, {})", m, index, k, v.iter().take(3).map(|x| x.to_string()).collect::<Vec<_>>(), p, got.0, up(&got.1), index, want));
        }
        let (a, b) = (&l[0], &l[m - 1]);
        let s = <L<F> as LinearSharingScheme<F, Sh<F>>>::add_shares(a, b);
        let d = <L<F> as LinearSharingScheme<F, Sh<F>>>::sub_shares(a, b);
        let c = <L<F> as LinearSharingScheme<F, Sh<F>>>::multiply_scalar(a, &b.1);
        let (x, y) = (&v[0], &v[m - 1]);
        for (n, r, w) in [("sum", s, (x + y) % &p), ("difference", d, (x + &p - y) % &p), ("multiple", c, (x * y) % &p)].iter() {
            if r.0 != index || up(&r.1) != *w {
                return Err(format!("the {} of shares ({}, {}) and {} modulo {} is ({}, {}), expected {}", n, index, x, y, p, r.0, up(&r.1), w));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- S04, S07
/// the opened values are inputs masked by different parts of unused triples
fn masked<F: Fld>(net: &Net<F>, inputs: &[(BigUint, BigUint)], ctx: &str) -> Result<(), String> {
    let m = inputs.len();
    let o = net.openings();
    if net.triple_at.iter().any(|x| *x != m) {
        return Err(format!("{}: {} triples were used for {} products", ctx, net.triple_at[0], m));
    }
    if o.len() != 2 * m || net.open_at.iter().any(|x| *x != 2 * m) {
        return Err(format!("{}: {} values were opened for {} products", ctx, o.len(), m));
    }
    if net.p < BigUint::one() << 50usize {
        return Ok(());
    }
    let mut used = BTreeSet::new();
    let known: BTreeSet<&BigUint> = inputs.iter().flat_map(|(x, y)| vec![x, y]).collect();
    for v in &o {
        let mut ok = false;
        'f: for i in 0..m {
            for (k, mask) in [&net.triples[i].0, &net.triples[i].1].iter().enumerate() {
                if (known.contains(&((v + *mask) % &net.p)) || known.contains(&((*mask + &net.p - v) % &net.p))) && used.insert((i, k)) {
                    ok = true;
                    break 'f;
                }
            }
        }
        if !ok {
            return Err(format!("{}: the opened value {} is not an input masked by an unused part of a triple", ctx, v));
        }
    }
    Ok(())
}
fn s04_case<F: Fld>(g: &mut Rng, single: bool) -> Result<(), String> {
    let p = prime::<F>();
    let (t, n) = setup(g, &p, 6);
    let net = Net::<F>::new(g, n, t);
    // one to three calls on the same protocol, one after the other
    let calls = if g.below(3) == 0 { g.range(2, 4) } else { 1 };
    let named = dict_sizes(0, 600);
    let sizes: Vec<usize> = (0..calls).map(|_| if single { 1 } else if !named.is_empty() && g.below(6) == 0 { *g.pick(&named) } else if g.below(60) == 0 { *g.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 300]) } else if g.below(6) == 0 { g.range(30, 45) } else { g.range(0, 5) }).collect();
    let m: usize = sizes.iter().sum();
    let mut vals: Vec<(BigUint, BigUint)> = vec![];
    for i in 0..m {
        // some products occur more than once
        let v = match g.below(8) { 0 if i > 0 => g.pick(&vals).clone(), 1 if i > 0 => { let x = g.pick(&vals).clone(); (x.1, x.0) }, 2 => { let x = value(g, &p); (x.clone(), x) }, _ => (value(g, &p), value(g, &p)) };
        vals.push(v);
    }
    let sh: Vec<Vec<(Sh<F>, Sh<F>)>> = vals
        .iter()
        .map(|(a, b)| {
            let mut k = net.lock().unwrap();
            // a value times itself: two sharings, or the same one twice
            if a == b && g.below(3) > 0 {
                return k.share(a).into_iter().map(|x| (x.clone(), x)).collect();
            }
            k.share(a).into_iter().zip(k.share(b)).collect()
        })
        .collect();
    let ctx = format!("{} (calls of sizes {:?}) modulo {} ({} of {}), inputs {:?}", if single { "multiply" } else { "unbounded_multiply" }, sizes, p, t, n, vals.iter().take(6).map(|(a, b)| format!("{}*{}", a, b)).collect::<Vec<_>>());
    let mut ps = parties(&net);
    let mut futs: Vec<Pin<Box<dyn Future<Output = Vec<Sh<F>>>>>> = vec![];
    for q in ps.iter_mut() {
        let mine = by_party(&sh, q.id);
        // SAFETY of lifetimes: the parties outlive the futures, which are consumed by drive below
        let q: &'static mut Party<F> = unsafe { &mut *(q as *mut Party<F>) };
        let sizes = sizes.clone();
        futs.push(Box::pin(async move {
            let mut all = vec![];
            let mut at = 0;
            for k in sizes {
                let part = &mine[at..at + k];
                at += k;
                if single {
                    // one sharing in both roles is one reference in both roles
                    let rhs = if part[0].0 == part[0].1 { &part[0].0 } else { &part[0].1 };
                    all.push(<BeaverRerandomizationMultiplication<F, Sh<F>, Party<F>> as MultiplicationScheme<F, Sh<F>, Party<F>>>::multiply(q, &part[0].0, rhs).await);
                } else {
                    let o = <BeaverRerandomizationMultiplication<F, Sh<F>, Party<F>> as UnboundedMultiplicationScheme<F, Sh<F>, Party<F>>>::unbounded_multiply(q, part).await;
                    if o.len() != k { return o; }
                    all.extend(o);
                }
            }
            all
        }));
    }
    let out = drive(g, &net, futs).map_err(|e| format!("{}: {}", ctx, e))?;
    let mut net = net.lock().unwrap();
    for (i, o) in out.iter().enumerate() {
        if o.len() != m {
            return Err(format!("{}: party {} obtained {} results", ctx, i + 1, o.len()));
        }
    }
    for k in 0..m {
        let s: Vec<Sh<F>> = out.iter().map(|o| o[k].clone()).collect();
        let v = net.secret(&s).map_err(|e| format!("{}: result {}: {}", ctx, k, e))?;
        let w = &vals[k].0 * &vals[k].1 % &p;
        if v != w {
            return Err(format!("{}: result {} is a sharing of {} instead of {}", ctx, k, v, w));
        }
    }
    masked(&net, &vals, &ctx)
}
fn s07_case<F: Fld>(g: &mut Rng) -> Result<(), String> {
    let p = prime::<F>();
    let (t, n) = setup(g, &p, 6);
    let net = Net::<F>::new(g, n, t);
    let (c, mut l, mut r) = (big(g.below(2)), value(g, &p), value(g, &p));
    // one sharing may have several roles
    let roles = *g.pick(&[0, 0, 0, 0, 0, 1, 2, 3, 4]);
    if roles & 1 == 1 { l = c.clone() }
    if roles & 2 == 2 { r = c.clone() }
    if roles == 4 { r = l.clone() }
    let (cs, ls, rs) = {
        let mut k = net.lock().unwrap();
        (k.share(&c), k.share(&l), k.share(&r))
    };
    let ctx = format!("roles {}, selection of {} by {} from ({}, {}) modulo {} ({} of {})", roles, if c.is_zero() { "the second" } else { "the first" }, c, l, r, p, t, n);
    let mut ps = parties(&net);
    let futs: Vec<Pin<Box<dyn Future<Output = Sh<F>> + '_>>> = ps
        .iter_mut()
        .map(|q| {
            let (a, b, c) = (cs[q.id].clone(), ls[q.id].clone(), rs[q.id].clone());
            let (b, c) = match roles { 0 => (&b, &c), 1 => (&a, &c), 2 => (&b, &a), 3 => (&a, &a), _ => (&b, &b) };
            <JointConditionalSelection<F, Sh<F>, Party<F>> as ConditionalSelectionScheme<F, Sh<F>, Party<F>>>::joint_conditional_selection(q, &a, b, c)
        })
        .collect();
    let out = drive(g, &net, futs).map_err(|e| format!("{}: {}", ctx, e))?;
    let v = net.lock().unwrap().secret(&out).map_err(|e| format!("{}: {}", ctx, e))?;
    let w = if c.is_zero() { &r } else { &l };
    if v != *w {
        return Err(format!("{}: the result is a sharing of {}", ctx, v));
    }
    // nothing that is opened tells the condition or an operand
    let k = net.lock().unwrap();
    if p > BigUint::one() << 50usize && k.triples.iter().all(|t| t.0 > big(1 << 20) && t.1 > big(1 << 20)) {
        for o in k.openings() {
            for (n, x) in [("condition", &c), ("negated condition", &((&p + big(1) - &c) % &p)), ("first operand", &l), ("second operand", &r), ("difference of the operands", &((&l + &p - &r) % &p)), ("difference of the operands", &((&r + &p - &l) % &p)), ("result", &v)].iter() {
                if o == **x { return Err(format!("{}: the {} {} is opened", ctx, n, x)); }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- S05
fn s05_case<F: Fld>(g: &mut Rng, single: bool) -> Result<(), String> {
    let p = prime::<F>();
    for _ in 0..200 {
        let (t, n) = setup(g, &p, 5);
        let net = Net::<F>::new(g, n, t);
        let calls = if g.below(3) == 0 { g.range(2, 3) } else { 1 };
        let named = dict_sizes(0, 300);
        let sizes: Vec<usize> = (0..calls).map(|_| {
            let m = if single { 1 } else if !named.is_empty() && g.below(6) == 0 { *g.pick(&named) } else if g.below(50) == 0 { *g.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257]) } else if g.below(8) == 0 { g.range(31, 36) } else { g.range(0, 5) };
            if p < big(100) { m.min(3) } else { m }
        }).collect();
        let m: usize = sizes.iter().sum();
        let same = g.below(6) == 0;
        let vals: Vec<BigUint> = (0..m).map(|_| { let v = value(g, &p); if v.is_zero() { big(1) + below(g, &(&p - big(1))) } else { v } }).collect();
        let vals: Vec<BigUint> = if same { vals.iter().map(|_| vals[0].clone()).collect() } else { vals };
        let sh: Vec<Vec<Sh<F>>> = vals.iter().map(|a| net.lock().unwrap().share(a)).collect();
        let ctx = format!("{} (calls of sizes {:?}) of {:?} modulo {} ({} of {})", if single { "inverse" } else { "unbounded_inverse" }, sizes, vals.iter().take(6).map(|v| v.to_string()).collect::<Vec<_>>(), p, t, n);
        let mut ps = parties(&net);
        let mut rngs: Vec<TestRng> = (0..n).map(|_| TestRng::new(g)).collect();
        let mine: Vec<Vec<Sh<F>>> = (0..n).map(|i| by_party(&sh, i)).collect();
        let mut futs: Vec<Pin<Box<dyn Future<Output = Vec<Sh<F>>> + '_>>> = vec![];
        for ((q, rng), mine) in ps.iter_mut().zip(rngs.iter_mut()).zip(&mine) {
            let sizes = sizes.clone();
            futs.push(Box::pin(async move {
                let mut all = vec![];
                let mut at = 0;
                for k in sizes {
                    let part = &mine[at..at + k];
                    at += k;
                    if single {
                        all.push(<JointUnboundedInversion<F, Sh<F>, Party<F>> as InversionScheme<F, Sh<F>, Party<F>>>::inverse(rng, q, &part[0]).await);
                    } else {
                        let o = <JointUnboundedInversion<F, Sh<F>, Party<F>> as UnboundedInversionScheme<F, Sh<F>, Party<F>>>::unbounded_inverse(rng, q, part).await;
                        if o.len() != k { return o; }
                        all.extend(o);
                    }
                }
                all
            }));
        }
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drive(g, &net, futs)));
        if net.is_poisoned() {
            return Err(format!("{}: a communication round failed", ctx));
        }
        let mut net = net.lock().unwrap();
        let masks = net.mask_sums();
        if masks.iter().any(|m| m.is_zero()) {
            continue; // a mask was zero: nothing is promised
        }
        let out = match res {
            Ok(r) => r.map_err(|e| format!("{}: {}", ctx, e))?,
            Err(_) => return Err(format!("{}: panicked although no mask is zero", ctx)),
        };
        if masks.len() != m {
            return Err(format!("{}: {} masks were drawn", ctx, masks.len()));
        }
        for k in 0..m {
            if out.iter().any(|o| o.len() != m) {
                return Err(format!("{}: wrong number of results", ctx));
            }
            let s: Vec<Sh<F>> = out.iter().map(|o| o[k].clone()).collect();
            let v = net.secret(&s).map_err(|e| format!("{}: result {}: {}", ctx, k, e))?;
            if &v * &vals[k] % &p != big(1) {
                return Err(format!("{}: result {} is a sharing of {}", ctx, k, v));
            }
        }
        // openings: those of the multiplication, and products of an input with a mask of its own
        if p > BigUint::one() << 50usize {
            let mut left: Vec<(usize, usize)> = vec![];
            let mut pairs: BTreeMap<BigUint, Vec<(usize, usize)>> = BTreeMap::new();
            for i in 0..m {
                for j in 0..m {
                    pairs.entry(&vals[i] * &masks[j] % &p).or_default().push((i, j));
                }
            }
            for o in net.openings() {
                if let Some(q) = pairs.get(&o).and_then(|v| v.iter().find(|q| !left.iter().any(|l| l.0 == q.0 || l.1 == q.1))) {
                    left.push(*q);
                }
            }
            let o = net.openings().len();
            if left.len() != m || o != 3 * m {
                return Err(format!("{}: {} values were opened, {} of them an input times a mask of its own", ctx, o, left.len()));
            }
        }
        return Ok(());
    }
    Ok(())
}

// ---------------------------------------------------------------- S06
fn or_once<F: Fld>(g: &mut Rng, l: usize) -> Result<(), String> {
    let p = prime::<F>();
    for _ in 0..60 {
        let (t, n) = if l > 100 { (2, 2) } else { setup(g, &p, 4) };
        let net = Net::<F>::new(g, n, t);
        let style = if l > 250 && g.below(4) > 0 { 2 } else { g.below(4) };
        let one = g.range(0, l - 1);
        let bits: Vec<BigUint> = (0..l).map(|i| big(match style { 0 => 0, 1 => (i == one) as u64, 2 => 1, _ => g.below(2) })).collect();
        let sh: Vec<Vec<Sh<F>>> = bits.iter().map(|a| net.lock().unwrap().share(a)).collect();
        let txt: String = bits.iter().map(|b| b.to_string()).collect();
        let ctx = format!("OR of the bits {} modulo {} ({} of {})", txt, p, t, n);
        let mut ps = parties(&net);
        let mut rngs: Vec<TestRng> = (0..n).map(|_| TestRng::new(g)).collect();
        let mine: Vec<Vec<Sh<F>>> = (0..n).map(|i| by_party(&sh, i)).collect();
        let single = l == 1 && g.bool();
        let mut futs: Vec<Pin<Box<dyn Future<Output = Sh<F>> + '_>>> = vec![];
        for ((q, rng), mine) in ps.iter_mut().zip(rngs.iter_mut()).zip(&mine) {
            futs.push(if single {
                <JointUnboundedOrFunction<F, Sh<F>, Party<F>> as OrFunctionScheme<F, Sh<F>, Party<F>>>::shared_or(rng, q, &mine[0])
            } else {
                <JointUnboundedOrFunction<F, Sh<F>, Party<F>> as UnboundedOrFunctionScheme<F, Sh<F>, Party<F>>>::unbounded_shared_or(rng, q, mine)
            });
        }
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drive(g, &net, futs)));
        if net.is_poisoned() {
            return Err(format!("{}: a communication round failed", ctx));
        }
        let mut net = net.lock().unwrap();
        if net.mask_sums().iter().any(|m| m.is_zero()) {
            continue;
        }
        let out = match res {
            Ok(r) => r.map_err(|e| format!("{}: {}", ctx, e))?,
            Err(_) => return Err(format!("{}: panicked although no mask is zero", ctx)),
        };
        let v = net.secret(&out).map_err(|e| format!("{}: {}", ctx, e))?;
        let w = big(bits.iter().any(|b| !b.is_zero()) as u64);
        if v != w {
            return Err(format!("{}: the result is a sharing of {}", ctx, v));
        }
        return Ok(());
    }
    Ok(())
}
fn or_field(g: &mut Rng, f: usize, l: usize) -> Result<(), String> {
    macro_rules! go { ($t:ty) => {{
        let m = prime::<$t>().to_u64().map_or(1000, |x| x - 2).min(1000) as usize;
        or_once::<$t>(g, l.min(m))
    }}; }
    match f {
        0 => go!(Q5),
        1 => go!(Mersenne3),
        2 => go!(Q11),
        3 => go!(Q13),
        4 => go!(Q19),
        5 => go!(Q101),
        6 => go!(Mersenne31),
        7 => go!(Q64),
        8 => go!(Mersenne127),
        _ => go!(Q256),
    }
}
fn or_history(g: &mut Rng, deep: bool) -> Result<(), String> {
    let fields: Vec<usize> = (0..g.range(1, 3)).map(|_| g.range(0, 9)).collect();
    let mut hist = String::new();
    for _ in 0..g.range(1, 7) {
        let f = *g.pick(&fields);
        let named = dict_sizes(1, if deep { 80 } else { 40 });
        let l = if !named.is_empty() && g.below(3) == 0 { *g.pick(&named) } else { 0 };
        let l = match g.below(8) { _ if l > 0 => l, 0 => g.range(9, if deep { 40 } else { 20 }), 1 | 2 => g.range(5, 9), _ => g.range(1, 5) };
        or_field(g, f, l).map_err(|e| format!("after OR computations of lengths [{}] (field.length): {}", hist, e))?;
        hist.push_str(&format!("{}.{} ", f, l));
    }
    Ok(())
}
/// more bits than fit into a byte-sized index
fn or_wide(g: &mut Rng) -> Result<(), String> {
    let l = g.range(256, 258);
    or_once::<Mersenne31>(g, l)
}
/// several fields used at once from several threads
fn or_threads(g: &mut Rng) -> Result<(), String> {
    let hs: Vec<_> = (0..4).map(|_| { let mut r = Rng::new(g.u64()); std::thread::spawn(move || or_history(&mut r, false)) }).collect();
    for h in hs {
        h.join().map_err(|_| "a thread computing OR panicked".to_string())??;
    }
    Ok(())
}
/// every case runs in a process of its own, so that the process-wide caches hold exactly its history
fn s06(r: &mut Runner) {
    let child = std::env::args().nth(1).map_or(false, |x| x == "--replay");
    if child {
        for k in 0..100000u64 {
            if r.stop() { break; }
            r.case(&format!("history/{}", k), |g| or_history(g, false));
            r.case(&format!("long-history/{}", k), |g| or_history(g, true));
            r.case(&format!("threads/{}", k), or_threads);
            r.case(&format!("wide/{}", k), or_wide);
        }
        return;
    }
    let mut k = 0;
    let deep = r.deep;
    let exe = std::env::current_exe().unwrap();
    while r.time_left() && !r.stop() && k < 1200 {
        let hs: Vec<_> = (0..6u64)
            .map(|i| {
                let id = k + i;
                let name = if deep && id % 300 == 1 { format!("wide/{}", id) } else if id % 10 == 9 { format!("threads/{}", id) } else if id % 10 == 8 { format!("long-history/{}", id) } else { format!("history/{}", id) };
                let (exe, seed, prop) = (exe.clone(), r.seed, r.property.clone());
                std::thread::spawn(move || {
                    let f = std::env::temp_dir().join(format!("s06_{}_{}.json", std::process::id(), id));
                    std::fs::write(&f, format!("{{\"property\": \"{}\", \"seed\": {}, \"case\": \"{}\"}}", prop, seed, name)).unwrap();
                    let o = std::process::Command::new(&exe).arg("--replay").arg(&f).output();
                    let _ = std::fs::remove_file(&f);
                    let v = match o {
                        Ok(o) if o.status.success() => None,
                        Ok(o) => Some(String::from_utf8_lossy(&o.stdout).trim().to_string() + String::from_utf8_lossy(&o.stderr).trim()),
                        Err(_) => None,
                    };
                    (name, v)
                })
            })
            .collect();
        for h in hs {
            let (name, v) = h.join().unwrap();
            r.case(&name, |_| match v { None => Ok(()), Some(e) => Err(e) });
        }
        k += 6;
    }
}

// ---------------------------------------------------------------- S08
fn s08<F: Fld>(r: &mut Runner, name: &str) {
    let p = prime::<F>();
    r.case(&format!("sum/{}", name), |g| {
        let small = p.to_u64().filter(|x| *x < 200);
        let total = if r_deep() { 8000 } else { 1500u64 };
        let mut counts = vec![0u64; small.unwrap_or(4) as usize];
        let mut per = 0;
        let mut seen: BTreeMap<BigUint, u64> = BTreeMap::new();
        let mut draws = 0;
        while draws < total {
            let m = if g.below(10) == 0 { 40 } else { 6 };
            let (t, n) = if per == 2 && p > big(10000) && p.bits() < 70 { (3, 260) } else { setup(g, &p, m) };
            let net = Net::<F>::new(g, n, t);
            let ctx = format!("joint random number modulo {} ({} of {})", p, t, n);
            let mut ps = parties(&net);
            let mut rngs: Vec<TestRng> = (0..n).map(|_| TestRng::new(g)).collect();
            let rounds = g.range(1, 3);
            let mut futs: Vec<Pin<Box<dyn Future<Output = Vec<Sh<F>>> + '_>>> = vec![];
            for (q, rng) in ps.iter_mut().zip(rngs.iter_mut()) {
                let fs: Vec<_> = (0..rounds).map(|_| <SumRandomNumberGeneration<F, Sh<F>, Party<F>> as RandomNumberGenerationScheme<F, Sh<F>, Party<F>>>::generate_random_number_sharing(rng, q)).collect();
                futs.push(Box::pin(async move {
                    let mut v = vec![];
                    for f in fs {
                        v.push(f.await);
                    }
                    v
                }));
            }
            let out = drive(g, &net, futs).map_err(|e| format!("{}: {}", ctx, e))?;
            let mut net = net.lock().unwrap();
            if net.dist_at.iter().any(|x| *x != rounds) || !net.opens.is_empty() {
                return Err(format!("{}: {} distributions by the first party and {} openings for {} numbers", ctx, net.dist_at[0], net.opens.len(), rounds));
            }
            let sums = net.mask_sums();
            for k in 0..rounds {
                let s: Vec<Sh<F>> = out.iter().map(|o| o[k].clone()).collect();
                let v = net.secret(&s).map_err(|e| format!("{}: {}", ctx, e))?;
                if v != sums[k] {
                    return Err(format!("{}: the contributions {:?} sum to {} but the shares stand for {}", ctx, net.contributions[k].iter().map(|c| c.to_string()).collect::<Vec<_>>(), sums[k], v));
                }
                for c in net.contributions[k].clone() {
                    draws += 1;
                    let cell = match small { Some(_) => c.to_u64().unwrap(), None => (&c * big(4) / &p).to_u64().unwrap() };
                    counts[cell as usize] += 1;
                    *seen.entry(c).or_insert(0) += 1;
                }
            }
            per += 1;
        }
        let _ = per;
        uniform(&counts, draws, &format!("the contributions modulo {}", p))?;
        if small.is_none() && p > BigUint::one() << 50usize {
            if let Some((c, k)) = seen.iter().find(|x| *x.1 > 1) {
                return Err(format!("the contribution {} modulo {} was drawn {} times", c, p, k));
            }
        }
        Ok(())
    });
}
fn r_deep() -> bool {
    std::env::args().nth(5).map_or(false, |x| x == "deep")
}

fn dispatch(r: &mut Runner) -> bool {
    macro_rules! rounds { ($n:expr, $f:expr) => {{
        let mut k = 0u64;
        while r.time_left() && !r.stop() && k < $n {
            let f = $f;
            f(r, k);
            k += 1;
        }
    }}; }
    macro_rules! cases { ($r:ident, $k:ident, $sec:expr, $call:ident $(, $a:expr)*) => {{
        macro_rules! one { ($t:ident) => { $r.case(&format!("{}/{}/{}", $sec, stringify!($t), $k), |g| $call::<$t>(g $(, $a)*)); } }
        one!(Q5); one!(Mersenne3); one!(Q11); one!(Q13); one!(Q19); one!(Q101); one!(Mersenne31); one!(Q64); one!(Mersenne127); one!(Q256);
    }}; }
    match r.property.as_str() {
        "S01" => {
            each!(r, s01);
            rounds!(100000, |r: &mut Runner, k: u64| {
                macro_rules! one { ($t:ident) => { s01_more::<$t>(r, stringify!($t), k); } }
                one!(Q5); one!(Mersenne3); one!(Q11); one!(Q13); one!(Q19); one!(Q101); one!(Mersenne31); one!(Q64); one!(Mersenne127); one!(Q256);
            });
        }
        "S02" => each!(r, s02),
        "S03" => rounds!(100000, |r: &mut Runner, k: u64| {
            cases!(r, k, "program", s03_case);
            cases!(r, k, "sums", s03_sums);
        }),
        "S04" => rounds!(100000, |r: &mut Runner, k: u64| {
            cases!(r, k, "batch", s04_case, false);
            cases!(r, k, "single", s04_case, true);
        }),
        "S05" => rounds!(100000, |r: &mut Runner, k: u64| {
            cases!(r, k, "batch", s05_case, false);
            cases!(r, k, "single", s05_case, true);
        }),
        "S06" => s06(r),
        "S07" => rounds!(100000, |r: &mut Runner, k: u64| cases!(r, k, "select", s07_case)),
        "S08" => each!(r, s08),
        _ => return false,
    }
    true
}
fn main() {
    harness::main_disturbed(dispatch, Some(disturb))
}
