//! S09: delegation. The traits of the crate, and (shapes.rs) traits of many other shapes
#![allow(clippy::all)]
#![recursion_limit = "512"]
#[macro_use]
#[path = "../shapes.rs"]
mod shapes;
use jester_maths::prime::*;
use jester_maths::prime_fields;
use mashup::*;
use num::{BigInt, BigUint, One, Zero};
use shapes::{log, now, Rec, LOG};
use futures::Future;
use harness::refmath::*;
use harness::run::*;
use jester_sharing::*;
use std::pin::Pin;

prime_fields!(pub Q101("101", 10));

// every trait of the crate, delegated to a recorder: the share type is a token
type Tk = u64;
type F = Q101;
pub struct Pr {
    pub tag: u64,
}
impl ThresholdSecretSharingScheme<F, Tk> for Pr {
    fn generate_shares<R: RngCore + CryptoRng>(_: &mut R, _: &F, _: usize, _: usize) -> Vec<Tk> { vec![] }
    fn reconstruct_secret(_: &[Tk], _: usize) -> F { F::zero() }
}
impl LinearSharingScheme<F, Tk> for Pr {
    fn add_shares(a: &Tk, b: &Tk) -> Tk { a + b }
    fn sub_shares(a: &Tk, _: &Tk) -> Tk { *a }
    fn add_scalar(a: &Tk, _: &F) -> Tk { *a }
    fn sub_scalar(a: &Tk, _: &F) -> Tk { *a }
    fn multiply_scalar(a: &Tk, _: &F) -> Tk { *a }
    fn sum_shares(a: &[Tk]) -> Option<Tk> { a.get(0).cloned() }
}
impl CliqueCommunicationScheme<F, Tk> for Pr {
    fn reveal_shares(&mut self, _: Tk) -> Pin<Box<dyn Future<Output = F> + Send>> { Box::pin(async { F::zero() }) }
    fn distribute_secret(&mut self, _: F) -> Pin<Box<dyn Future<Output = Vec<Tk>> + Send>> { Box::pin(async { vec![] }) }
}
macro_rules! del { ($($m:ident $d:ident),*) => { $( impl $m for Pr { type Marker = Delegate; } impl $d<F, Tk, Pr> for Pr { type Delegate = Rec; } )* } }
del!(MultiplicationSchemeMarker MultiplicationSchemeDelegate, UnboundedMultiplicationSchemeMarker UnboundedMultiplicationSchemeDelegate, RandomNumberGenerationSchemeMarker RandomNumberGenerationSchemeDelegate, RandomBitGenerationSchemeMarker RandomBitGenerationSchemeDelegate, InversionSchemeMarker InversionSchemeDelegate, UnboundedInversionSchemeMarker UnboundedInversionSchemeDelegate, OrFunctionSchemeMarker OrFunctionSchemeDelegate, UnboundedOrFunctionSchemeMarker UnboundedOrFunctionSchemeDelegate, ConditionalSelectionSchemeMarker ConditionalSelectionSchemeDelegate);
impl MultiplicationScheme<F, Tk, Pr> for Rec {
    fn multiply<'a>(p: &'a mut Pr, l: &Tk, r: &Tk) -> Pin<Box<dyn Future<Output = Tk> + Send + 'a>> { let s = format!("multiply {} {} {}", p.tag, l, r); let v = l * 31 + r; Box::pin(async move { log(s); v }) }
}
impl UnboundedMultiplicationScheme<F, Tk, Pr> for Rec {
    fn unbounded_multiply<'a>(p: &'a mut Pr, v: &[(Tk, Tk)]) -> Pin<Box<dyn Future<Output = Vec<Tk>> + Send + 'a>> { let s = format!("unbounded_multiply {} {:?}", p.tag, v); let v = v.iter().map(|x| x.0 * 31 + x.1).collect(); Box::pin(async move { log(s); v }) }
}
impl RandomNumberGenerationScheme<F, Tk, Pr> for Rec {
    fn generate_random_number_sharing<R: RngCore + CryptoRng>(g: &mut R, p: &mut Pr) -> Pin<Box<dyn Future<Output = Tk> + Send>> { let v = g.next_u64(); log(format!("generate_random_number_sharing {} {}", v, p.tag)); Box::pin(async move { v }) }
}
impl RandomBitGenerationScheme<F, Tk, Pr> for Rec {
    fn generate_random_bit<'a, R: RngCore + CryptoRng>(g: &mut R, p: &'a mut Pr) -> Pin<Box<dyn Future<Output = Tk> + Send + 'a>> { let v = g.next_u64(); log(format!("generate_random_bit {} {}", v, p.tag)); Box::pin(async move { v & 1 }) }
}
impl InversionScheme<F, Tk, Pr> for Rec {
    fn inverse<'a, R: RngCore + CryptoRng>(g: &'a mut R, p: &'a mut Pr, s: &Tk) -> Pin<Box<dyn Future<Output = Tk> + 'a>> { let v = g.next_u64(); log(format!("inverse {} {} {}", v, p.tag, s)); let s = *s; Box::pin(async move { s + 5 }) }
}
impl UnboundedInversionScheme<F, Tk, Pr> for Rec {
    fn unbounded_inverse<'a, R: RngCore + CryptoRng>(g: &'a mut R, p: &'a mut Pr, s: &[Tk]) -> Pin<Box<dyn Future<Output = Vec<Tk>> + 'a>> { let v = g.next_u64(); log(format!("unbounded_inverse {} {} {:?}", v, p.tag, s)); let s = s.iter().map(|x| x + 6).collect(); Box::pin(async move { s }) }
}
impl OrFunctionScheme<F, Tk, Pr> for Rec {
    fn shared_or<'a, R: RngCore + CryptoRng>(g: &'a mut R, p: &'a mut Pr, s: &Tk) -> Pin<Box<dyn Future<Output = Tk> + 'a>> { let v = g.next_u64(); log(format!("shared_or {} {} {}", v, p.tag, s)); let s = *s; Box::pin(async move { s + 7 }) }
}
impl UnboundedOrFunctionScheme<F, Tk, Pr> for Rec {
    fn unbounded_shared_or<'a, R: RngCore + CryptoRng>(g: &'a mut R, p: &'a mut Pr, s: &[Tk]) -> Pin<Box<dyn Future<Output = Tk> + 'a>> { let v = g.next_u64(); log(format!("unbounded_shared_or {} {} {:?}", v, p.tag, s)); let s = s.len() as u64; Box::pin(async move { s + 8 }) }
}
impl ConditionalSelectionScheme<F, Tk, Pr> for Rec {
    fn joint_conditional_selection<'a>(p: &'a mut Pr, c: &Tk, l: &Tk, r: &Tk) -> Pin<Box<dyn Future<Output = Tk> + 'a>> { let s = format!("joint_conditional_selection {} {} {} {}", p.tag, c, l, r); let v = c * 10007 + l * 101 + r; Box::pin(async move { log(s); v }) }
}
pub fn protocols(g: &mut Rng) -> Result<(), String> {
    let rng = TestRng::new(g);
    let tag = g.below(1 << 20);
    let (a, b, c) = (g.below(1 << 20), g.below(1 << 20), g.below(1 << 20));
    let list: Vec<u64> = (0..g.range(0, 4)).map(|_| g.below(1 << 20)).collect();
    let pairs: Vec<(u64, u64)> = (0..g.range(0, 4)).map(|_| (g.below(1 << 20), g.below(1 << 20))).collect();
    macro_rules! prot { ($tr:ident, $f:ident ( $($x:expr),* )) => { both!(stringify!($f), now(<Pr as $tr<F, Tk, Pr>>::$f($($x),*)), now(<Rec as $tr<F, Tk, Pr>>::$f($($x),*))) } }
    prot!(MultiplicationScheme, multiply(&mut Pr { tag }, &a, &b));
    prot!(UnboundedMultiplicationScheme, unbounded_multiply(&mut Pr { tag }, &pairs));
    prot!(RandomNumberGenerationScheme, generate_random_number_sharing(&mut rng.clone(), &mut Pr { tag }));
    prot!(RandomBitGenerationScheme, generate_random_bit(&mut rng.clone(), &mut Pr { tag }));
    prot!(InversionScheme, inverse(&mut rng.clone(), &mut Pr { tag }, &a));
    prot!(UnboundedInversionScheme, unbounded_inverse(&mut rng.clone(), &mut Pr { tag }, &list));
    prot!(OrFunctionScheme, shared_or(&mut rng.clone(), &mut Pr { tag }, &a));
    prot!(UnboundedOrFunctionScheme, unbounded_shared_or(&mut rng.clone(), &mut Pr { tag }, &list));
    prot!(ConditionalSelectionScheme, joint_conditional_selection(&mut Pr { tag }, &a, &b, &c));
    Ok(())
}
fn dispatch(r: &mut Runner) -> bool {
    if r.property != "S09" {
        return false;
    }
    let mut k = 0u64;
    while r.time_left() && !r.stop() && k < 3000 {
        r.case(&format!("protocols/{}", k), protocols);
        r.case(&format!("shapes/{}", k), shapes::shapes);
        k += 1;
    }
    true
}
fn main() {
    harness::main_with(dispatch)
}
