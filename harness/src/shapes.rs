//! traits of many shapes carrying the attribute, a type that delegates them and a recorder behind it
use futures::Future;
use harness::refmath::*;
use harness::run::*;
use jester_sharing::*;
use std::cell::RefCell;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use jester_sharing_proc::delegatable_protocol;
thread_local! { pub static LOG: RefCell<Vec<String>> = RefCell::new(vec![]); }
pub fn log(s: String) {
    LOG.with(|l| l.borrow_mut().push(s))
}
/// the delegate, and a protocol delegating to it
pub struct Rec;
pub struct Own;
pub struct Front {
    pub tag: u64,
}
#[delegatable_protocol]
pub trait Wide<T, S, P>
where
    T: std::fmt::Debug,
{
    fn none() -> u64;
    fn one(a: T) -> u64;
    fn two(a: u64, b: u64) -> u64;
    fn same<'a>(x: &'a u64, y: &'a u64, z: &'a u64) -> &'a u64;
    fn mixed<R>(zeta: &mut R, alpha: u8, mid: (u8, u8), beta: u8) -> Vec<u8>
    where
        R: RngCore + CryptoRng;
    fn long(h: u8, g: u8, f: u8, e: u8, d: u8, c: u8, b: u8, a: u8) -> [u8; 8];
    fn unit(a: u64, b: u64);
    fn provided(a: u64, b: u64) -> u64 {
        a * 1000 + b
    }
    fn share(s: S, t: T) -> S;
    fn last(b: u64, a: u64) -> u64;
}
#[delegatable_protocol]
pub trait Narrow<P>
where
    P: Sized,
{
    fn single(a: u64, b: u64) -> u64;
}
impl<T: std::fmt::Debug, S, P> Wide<T, S, P> for Rec {
    fn none() -> u64 { log("none".into()); 17 }
    fn one(a: T) -> u64 { log(format!("one {:?}", a)); 18 }
    fn two(a: u64, b: u64) -> u64 { log(format!("two {} {}", a, b)); a.wrapping_mul(31).wrapping_add(b) }
    fn same<'a>(x: &'a u64, y: &'a u64, z: &'a u64) -> &'a u64 { log(format!("same {} {} {}", x, y, z)); if *x > *y { z } else { y } }
    fn mixed<R>(zeta: &mut R, alpha: u8, mid: (u8, u8), beta: u8) -> Vec<u8> where R: RngCore + CryptoRng { log(format!("mixed {} {:?} {}", alpha, mid, beta)); vec![zeta.next_u32() as u8, alpha, mid.0, mid.1, beta] }
    fn long(h: u8, g: u8, f: u8, e: u8, d: u8, c: u8, b: u8, a: u8) -> [u8; 8] { log("long".into()); [h, g, f, e, d, c, b, a] }
    fn unit(a: u64, b: u64) { log(format!("unit {} {}", a, b)); }
    fn share(s: S, t: T) -> S { log(format!("share {:?}", t)); s }
    fn last(b: u64, a: u64) -> u64 { log(format!("last {} {}", b, a)); b.wrapping_sub(a) }
}
impl<P> Narrow<P> for Rec {
    fn single(a: u64, b: u64) -> u64 { log(format!("single {} {}", a, b)); a ^ (b << 1) }
}
impl WideMarker for Front { type Marker = Delegate; }
impl<T: std::fmt::Debug, S, P> WideDelegate<T, S, P> for Front { type Delegate = Rec; }
impl NarrowMarker for Front { type Marker = Delegate; }
impl<P> NarrowDelegate<P> for Front { type Delegate = Rec; }
// shapes of parameter lists of every kind
#[delegatable_protocol]
pub trait Shapes<K, P>
where
    K: Clone + std::fmt::Debug,
{
    fn dozen(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64) -> Vec<u64>;
    fn usual(rng: u64, protocol: u64, share: u64, secret: u64, lhs: u64, rhs: u64, condition: u64, bits: u64) -> Vec<u64>;
    fn turned(rhs: u64, lhs: u64, protocol: u64, rng: u64) -> Vec<u64>;
    fn numbered(x10: u64, x9: u64, x2: u64, x1: u64) -> Vec<u64>;
    fn underscored(_b: u64, __a: u64, _0: u64) -> Vec<u64>;
    fn array<const N: usize>(x: [u8; N], y: [u8; N]) -> Vec<u8>;
    fn twice<A: Clone, B>(a: A, b: A, c: B) -> (A, B, A);
    fn swap<A, B>(b: B, a: A) -> (B, A) where A: Clone, B: Clone;
    fn call(f: fn(u64, u64) -> u64, x: u64, y: u64) -> u64;
    fn boxed(f: Box<dyn Fn(u64) -> u64>, g: Box<dyn Fn(u64) -> u64>, x: u64) -> u64;
    fn slices<'a, 'b>(x: &'a [u64], y: &'b [u64], z: &'a [u64]) -> &'a [u64];
    fn maybe(a: Option<u64>, b: Option<u64>) -> Result<u64, String>;
    fn change(x: &mut u64, y: &mut u64) -> u64;
    fn text(a: String, b: &str, c: &str) -> String;
    fn flags(a: bool, b: bool, c: bool) -> u8;
    fn pick_a(x: u64, y: u64) -> u64;
    fn pick_b(x: u64, y: u64) -> u64;
    fn given(x: u64, y: u64) -> u64 { x.wrapping_sub(y) }
    fn pick_c(y: u64, x: u64) -> u64;
    fn pick_d(x: u64, y: u64) -> u64;
    fn pick_e(y: u64, x: u64) -> u64;
    fn pick_f(left: u64, right: u64) -> u64;
    fn pick_g(right: u64, left: u64) -> u64;
    fn pick_h(a: u64, b: u64) -> u64;
    fn generate(a: u64, b: u64) -> u64;
    fn multiply(a: u64, b: u64) -> u64;
    fn delegate(a: u64, b: u64) -> u64;
    fn new(a: u64, b: u64) -> u64;
    fn inverse(a: &u64, b: &u64) -> u64;
    fn later<'a>(x: &'a u64, y: &'a u64) -> Pin<Box<dyn Future<Output = u64> + 'a>>;
    fn given_too(a: u64, b: u64) -> u64 { b ^ a.rotate_left(7) }
    fn nested(a: ((u64, u64), u64), b: ((u64, u64), u64), c: [[u64; 2]; 2]) -> u64;
    fn through(f: impl Fn(u64) -> u64, x: u64, y: u64) -> u64;
    fn loud(a: u64, b: u64) -> u64;
    fn keyed(a: K, b: K, c: &K) -> Vec<K>;
}
// the same name of a method in two traits, the same type behind both
#[delegatable_protocol]
pub trait Other<P>
where
    P: Sized,
{
    fn pick_a(x: u64, y: u64) -> u64;
    fn two(b: u64, a: u64) -> u64;
}
// a visibility of its own, bounds between the parameters
#[delegatable_protocol]
pub(crate) trait Bounded<X, Y, P>
where
    X: Into<Y> + Clone,
    Y: Clone + std::fmt::Debug,
{
    fn into_first(x: X, y: Y) -> Y;
    fn into_second(y: Y, x: X) -> (Y, Y);
}
impl<K: Clone + std::fmt::Debug, P> Shapes<K, P> for Rec {
    fn dozen(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64) -> Vec<u64> { log("dozen".into()); vec![a12, a3, a11, a0, a10, a1, a9, a2, a8, a4, a7, a5, a6] }
    fn usual(rng: u64, protocol: u64, share: u64, secret: u64, lhs: u64, rhs: u64, condition: u64, bits: u64) -> Vec<u64> { log("usual".into()); vec![condition, bits, lhs, rng, rhs, secret, protocol, share] }
    fn turned(rhs: u64, lhs: u64, protocol: u64, rng: u64) -> Vec<u64> { log("turned".into()); vec![lhs, rng, rhs, protocol] }
    fn numbered(x10: u64, x9: u64, x2: u64, x1: u64) -> Vec<u64> { log("numbered".into()); vec![x1, x10, x2, x9] }
    fn underscored(_b: u64, __a: u64, _0: u64) -> Vec<u64> { log("underscored".into()); vec![__a, _b, _0] }
    fn array<const N: usize>(x: [u8; N], y: [u8; N]) -> Vec<u8> { log("array".into()); x.iter().map(|v| v ^ 0xaa).chain(y.iter().cloned()).collect() }
    fn twice<A: Clone, B>(a: A, b: A, c: B) -> (A, B, A) { log("twice".into()); (b, c, a) }
    fn swap<A, B>(b: B, a: A) -> (B, A) where A: Clone, B: Clone { log("swap".into()); (b.clone(), a.clone()) }
    fn call(f: fn(u64, u64) -> u64, x: u64, y: u64) -> u64 { log("call".into()); f(x, y) }
    fn boxed(f: Box<dyn Fn(u64) -> u64>, g: Box<dyn Fn(u64) -> u64>, x: u64) -> u64 { log("boxed".into()); f(g(x)) }
    fn slices<'a, 'b>(x: &'a [u64], y: &'b [u64], z: &'a [u64]) -> &'a [u64] { log("slices".into()); { log(format!("{:?}", y)); if x.len() > z.len() { x } else { z } } }
    fn maybe(a: Option<u64>, b: Option<u64>) -> Result<u64, String> { log("maybe".into()); match (a, b) { (Some(a), None) => Ok(a), (None, Some(b)) => Err(format!("b {}", b)), (Some(a), Some(b)) => Ok(a.wrapping_mul(7).wrapping_sub(b)), _ => Err("none".into()) } }
    fn change(x: &mut u64, y: &mut u64) -> u64 { log("change".into()); { let t = *x; *x = y.wrapping_mul(3); *y = t ^ 5; t } }
    fn text(a: String, b: &str, c: &str) -> String { log("text".into()); format!("{}-{}-{}", c, a, b) }
    fn flags(a: bool, b: bool, c: bool) -> u8 { log("flags".into()); a as u8 + 2 * b as u8 + 4 * c as u8 }
    fn pick_a(x: u64, y: u64) -> u64 { log("pick_a".into()); x ^ y.rotate_left(1) }
    fn pick_b(x: u64, y: u64) -> u64 { log("pick_b".into()); x ^ y.rotate_left(2) }
    fn pick_c(y: u64, x: u64) -> u64 { log("pick_c".into()); x ^ y.rotate_left(3) }
    fn pick_d(x: u64, y: u64) -> u64 { log("pick_d".into()); x ^ y.rotate_left(4) }
    fn pick_e(y: u64, x: u64) -> u64 { log("pick_e".into()); x ^ y.rotate_left(5) }
    fn pick_f(left: u64, right: u64) -> u64 { log("pick_f".into()); left ^ right.rotate_left(6) }
    fn pick_g(right: u64, left: u64) -> u64 { log("pick_g".into()); left ^ right.rotate_left(7) }
    fn pick_h(a: u64, b: u64) -> u64 { log("pick_h".into()); a ^ b.rotate_left(8) }
    fn generate(a: u64, b: u64) -> u64 { log("generate".into()); a ^ b.rotate_left(9) }
    fn multiply(a: u64, b: u64) -> u64 { log("multiply".into()); a ^ b.rotate_left(10) }
    fn delegate(a: u64, b: u64) -> u64 { log("delegate".into()); a ^ b.rotate_left(11) }
    fn new(a: u64, b: u64) -> u64 { log("new".into()); a ^ b.rotate_left(12) }
    fn inverse(a: &u64, b: &u64) -> u64 { log("inverse".into()); *a ^ b.rotate_left(13) }
    fn later<'a>(x: &'a u64, y: &'a u64) -> Pin<Box<dyn Future<Output = u64> + 'a>> { log("later".into()); { let (a, b) = (x, y); Box::pin(async move { log("later runs".into()); a.wrapping_sub(*b) }) } }
    fn nested(a: ((u64, u64), u64), b: ((u64, u64), u64), c: [[u64; 2]; 2]) -> u64 { log("nested".into()); (a.0).0 ^ (b.0).1.rotate_left(5) ^ a.1.rotate_left(9) ^ c[1][0].rotate_left(3) }
    fn through(f: impl Fn(u64) -> u64, x: u64, y: u64) -> u64 { log("through".into()); f(x) ^ f(y).rotate_left(3) }
    fn loud(a: u64, b: u64) -> u64 { log("loud".into()); { if a % 2 == 0 { panic!("loud {} {}", a, b) } b } }
    fn keyed(a: K, b: K, c: &K) -> Vec<K> { log("keyed".into()); vec![b, c.clone(), a] }
}
impl<P> Other<P> for Rec {
    fn pick_a(x: u64, y: u64) -> u64 { log("other pick_a".into()); x.wrapping_mul(3) ^ y }
    fn two(b: u64, a: u64) -> u64 { log("other two".into()); b.wrapping_mul(5) ^ a }
}
impl<X: Into<Y> + Clone, Y: Clone + std::fmt::Debug, P> Bounded<X, Y, P> for Rec {
    fn into_first(x: X, y: Y) -> Y { log(format!("into_first {:?}", y)); x.into() }
    fn into_second(y: Y, x: X) -> (Y, Y) { log("into_second".into()); (x.into(), y) }
}
impl ShapesMarker for Front { type Marker = Delegate; }
impl<K: Clone + std::fmt::Debug, P> ShapesDelegate<K, P> for Front { type Delegate = Rec; }
impl OtherMarker for Front { type Marker = Delegate; }
impl<P> OtherDelegate<P> for Front { type Delegate = Rec; }
impl BoundedMarker for Front { type Marker = Delegate; }
impl<X: Into<Y> + Clone, Y: Clone + std::fmt::Debug, P> BoundedDelegate<X, Y, P> for Front { type Delegate = Rec; }
/// a protocol that implements the operations itself under a marker of its own
pub struct Hand;
impl WideMarker for Hand { type Marker = Own; }
impl<T: std::fmt::Debug, S, P> WideImpl<T, S, P, Own> for Hand {
    fn none() -> u64 { 3 }
    fn one(_: T) -> u64 { 4 }
    fn two(a: u64, b: u64) -> u64 { a.wrapping_sub(b.wrapping_mul(7)) }
    fn same<'a>(_: &'a u64, _: &'a u64, z: &'a u64) -> &'a u64 { z }
    fn mixed<R>(_: &mut R, alpha: u8, mid: (u8, u8), beta: u8) -> Vec<u8> where R: RngCore + CryptoRng { vec![beta, mid.1, mid.0, alpha] }
    fn long(h: u8, g: u8, f: u8, e: u8, d: u8, c: u8, b: u8, a: u8) -> [u8; 8] { [a, b, c, d, e, f, g, h] }
    fn unit(_: u64, _: u64) { log("hand".into()); }
    fn share(s: S, _: T) -> S { s }
    fn last(b: u64, a: u64) -> u64 { a.wrapping_sub(b) }
}
macro_rules! both {
    ($name:expr, $via:expr, $direct:expr) => {{
        LOG.with(|l| l.borrow_mut().clear());
        let a = format!("{:?}", $via);
        let la = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        let b = format!("{:?}", $direct);
        let lb = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        if a != b || la != lb {
            return Err(format!("{}: the delegating type ran {:?} and returned {}, its delegate runs {:?} and returns {}", $name, la, a, lb, b));
        }
    }};
}
pub fn now<O>(mut f: Pin<Box<dyn Future<Output = O> + '_>>) -> O {
    let mut cx = Context::from_waker(Waker::noop());
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(v) => v,
        Poll::Pending => panic!("pending"),
    }
}
pub fn caught<O>(f: impl FnOnce() -> O) -> Result<O, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().unwrap_or_default())
}
pub fn shapes(g: &mut Rng) -> Result<(), String> {
    let rng = TestRng::new(g);
    type W = u32;
    let (a, b, c) = (g.u64() >> 20, g.u64() >> 20, g.u64() >> 20);
    let by = g.bytes(12);
    macro_rules! wide { ($n:expr, $f:ident ( $($x:expr),* )) => { both!($n, <Front as Wide<W, u64, Front>>::$f($($x),*), <Rec as Wide<W, u64, Front>>::$f($($x),*)) } }
    wide!("none", none());
    wide!("one", one(a as u32));
    wide!("two", two(a, b));
    wide!("same", same(&a, &b, &c));
    wide!("mixed", mixed(&mut rng.clone(), by[0], (by[1], by[2]), by[3]));
    wide!("long", long(by[0], by[1], by[2], by[3], by[4], by[5], by[6], by[7]));
    wide!("unit", unit(a, b));
    wide!("provided", provided(a, b));
    wide!("share", share(a, b as u32));
    wide!("last", last(a, b));
    both!("single", <Front as Narrow<Front>>::single(a, b), <Rec as Narrow<Front>>::single(a, b));
    macro_rules! hand { ($n:expr, $f:ident ( $($x:expr),* )) => { both!(concat!($n, " (own marker)"), <Hand as Wide<W, u64, Hand>>::$f($($x),*), <Hand as WideImpl<W, u64, Hand, Own>>::$f($($x),*)) } }
    hand!("two", two(a, b));
    hand!("same", same(&a, &b, &c));
    hand!("mixed", mixed(&mut rng.clone(), by[0], (by[1], by[2]), by[3]));
    hand!("long", long(by[0], by[1], by[2], by[3], by[4], by[5], by[6], by[7]));
    hand!("unit", unit(a, b));
    hand!("last", last(a, b));
    macro_rules! shape { ($f:ident ( $($x:expr),* )) => { both!(stringify!($f), <Front as Shapes<u32, Front>>::$f($($x),*), <Rec as Shapes<u32, Front>>::$f($($x),*)) } }
    let w: Vec<u64> = (0..13).map(|_| g.u64()).collect();
    shape!(dozen(w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9], w[10], w[11], w[12]));
    shape!(usual(w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]));
    shape!(turned(w[0], w[1], w[2], w[3]));
    shape!(numbered(w[0], w[1], w[2], w[3]));
    shape!(underscored(w[0], w[1], w[2]));
    shape!(array([by[0], by[1], by[2]], [by[3], by[4], by[5]]));
    shape!(array([by[0]; 0], [by[3]; 0]));
    shape!(twice(w[0], w[1], by[0]));
    shape!(swap(w[0], w[1]));
    shape!(call(|a, b| a.wrapping_sub(b), w[0], w[1]));
    let (k1, k2) = (w[11], w[12]);
    shape!(boxed(Box::new(move |x| x.wrapping_add(k1)), Box::new(move |x| x.wrapping_mul(k2 | 1).rotate_left(3)), w[2]));
    shape!(slices(&w[0..2], &w[2..5], &w[5..7]));
    shape!(slices(&w[0..4], &w[2..5], &w[5..7]));
    for m in 0..4u8 {
        let (x, y) = (if m & 1 != 0 { Some(w[0]) } else { None }, if m & 2 != 0 { Some(w[1]) } else { None });
        shape!(maybe(x, y));
    }
    both!("change",
        { let (mut x, mut y) = (w[0], w[1]); let r = <Front as Shapes<u32, Front>>::change(&mut x, &mut y); (r, x, y) },
        { let (mut x, mut y) = (w[0], w[1]); let r = <Rec as Shapes<u32, Front>>::change(&mut x, &mut y); (r, x, y) });
    shape!(text(format!("{:x}", w[0]), &format!("{:x}", w[1]), "c"));
    for m in 0..8u8 { shape!(flags(m & 1 != 0, m & 2 != 0, m & 4 != 0)); }
    shape!(pick_a(w[0], w[1]));
    shape!(pick_b(w[0], w[1]));
    shape!(pick_c(w[0], w[1]));
    shape!(given(w[0], w[1]));
    shape!(given_too(w[0], w[1]));
    shape!(pick_d(w[0], w[1]));
    shape!(pick_e(w[0], w[1]));
    shape!(pick_f(w[0], w[1]));
    shape!(pick_g(w[0], w[1]));
    shape!(pick_h(w[0], w[1]));
    shape!(generate(w[0], w[1]));
    shape!(multiply(w[0], w[1]));
    shape!(delegate(w[0], w[1]));
    shape!(new(w[0], w[1]));
    shape!(inverse(&w[0], &w[1]));
    both!("later", now(<Front as Shapes<u32, Front>>::later(&w[0], &w[1])), now(<Rec as Shapes<u32, Front>>::later(&w[0], &w[1])));
    // a future nobody runs: what its construction does, and nothing more
    both!("later, never run", { drop(<Front as Shapes<u32, Front>>::later(&w[0], &w[1])); 0 }, { drop(<Rec as Shapes<u32, Front>>::later(&w[0], &w[1])); 0 });
    shape!(nested(((w[0], w[1]), w[2]), ((w[3], w[4]), w[5]), [[w[6], w[7]], [w[8], w[9]]]));
    both!("through", <Front as Shapes<u32, Front>>::through(|x| { log(format!("asked {}", x)); x.wrapping_mul(k2 | 1) }, w[0], w[1]), <Rec as Shapes<u32, Front>>::through(|x| { log(format!("asked {}", x)); x.wrapping_mul(k2 | 1) }, w[0], w[1]));
    shape!(loud(w[0] | 1, w[1]));
    both!("loud, panicking",
        caught(|| <Front as Shapes<u32, Front>>::loud(w[0] & !1, w[1])).err(),
        caught(|| <Rec as Shapes<u32, Front>>::loud(w[0] & !1, w[1])).err());
    shape!(keyed(by[0] as u32, by[1] as u32, &(by[2] as u32)));
    both!("other pick_a", <Front as Other<Front>>::pick_a(w[0], w[1]), <Rec as Other<Front>>::pick_a(w[0], w[1]));
    both!("other two", <Front as Other<Front>>::two(w[0], w[1]), <Rec as Other<Front>>::two(w[0], w[1]));
    both!("into_first", <Front as Bounded<u8, u64, Front>>::into_first(by[0], w[0]), <Rec as Bounded<u8, u64, Front>>::into_first(by[0], w[0]));
    both!("into_second", <Front as Bounded<u8, u64, Front>>::into_second(w[0], by[0]), <Rec as Bounded<u8, u64, Front>>::into_second(w[0], by[0]));
    let _ = Front { tag: a }.tag;
    Ok(())
}
