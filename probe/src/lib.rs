//! Protocol traits of the shapes the attribute macro can meet: their generated implementations are put under contract.
use jester_sharing_proc::delegatable_protocol;
use std::future::Future;
use std::pin::Pin;

pub struct Delegate;

#[delegatable_protocol]
pub trait Wide<T, S, P>
where
    T: std::fmt::Debug,
{
    fn none() -> u64;
    fn one(a: T) -> u64;
    fn two(a: u64, b: u64) -> u64;
    fn same<'a>(x: &'a u64, y: &'a u64, z: &'a u64) -> &'a u64;
    fn mixed<R>(zeta: &mut R, alpha: u8, mid: (u8, u8), beta: u8) -> Vec<u8>
    where
        R: Clone;
    fn long(h: u8, g: u8, f: u8, e: u8, d: u8, c: u8, b: u8, a: u8) -> [u8; 8];
    fn unit(a: u64, b: u64);
    fn provided(a: u64, b: u64) -> u64 {
        a * 1000 + b
    }
    fn share(s: S, t: T) -> S;
    fn last(b: u64, a: u64) -> u64;
}

/// methods that differ in name only
#[delegatable_protocol]
pub trait Twins<S, P>
where
    P: Sized,
{
    fn first(protocol: &mut P, a: &S, b: &S) -> S;
    fn second(protocol: &mut P, a: &S, b: &S) -> S;
    fn third(protocol: &mut P, b: &S, a: &S) -> S;
    fn first_pair(protocol: &mut P, a: &[S], b: &[S]) -> (S, S);
    fn second_pair(protocol: &mut P, a: &[S], b: &[S]) -> (S, S);
}

#[delegatable_protocol]
pub trait Narrow<P>
where
    P: Sized,
{
    fn single(a: u64, b: u64) -> u64;
}

/// several exclusive borrows and boxed futures
#[delegatable_protocol]
pub trait Futures<T, S, P>
where
    P: Send + Sync,
    T: Send + Sync,
    S: Send + Sync + 'static,
{
    fn both<'a, R, Q>(left: &'a mut R, right: &'a mut R, other: &mut Q, protocol: &'a mut P) -> Pin<Box<dyn Future<Output = (S, S)> + 'a>>
    where
        R: Send,
        Q: Send;
    fn batch<'a>(protocol: &'a mut P, pairs: &[(S, S)], more: &[(S, S)], scalar: &T) -> Pin<Box<dyn Future<Output = Vec<S>> + Send + 'a>>;
    fn consume(shares: Vec<S>, others: Vec<S>, from: usize, to: usize) -> Pin<Box<dyn Future<Output = Option<S>>>>;
}
