#![verifier::loop_isolation(false)]
#![allow(unused_imports, dead_code, non_snake_case, unused_variables, unused_mut, unused_parens, unused_unsafe)]
use vstd::prelude::*; use std::convert::TryInto; use std::mem; use std::mem::size_of; use std::mem::take;
verus! {
global size_of usize == 8;
// ---------- trusted contracts on the standard library ----------
pub open spec fn rotl32(x: u32, n: u32) -> u32 { (x << n) | (x >> ((32 - n) as u32)) }
pub open spec fn rotr32(x: u32, n: u32) -> u32 { (x >> n) | (x << ((32 - n) as u32)) }
pub assume_specification [u32::rotate_left] (x: u32, n: u32) -> (r: u32) ensures 0 < n < 32 ==> r == rotl32(x, n);
pub assume_specification [u32::rotate_right] (x: u32, n: u32) -> (r: u32) ensures 0 < n < 32 ==> r == rotr32(x, n);
pub assume_specification [i64::unsigned_abs] (x: i64) -> (r: u64) ensures r == (if x >= 0 { x as int } else { -(x as int) });
pub assume_specification<T: Clone> [ <[T]>::to_vec ] (s: &[T]) -> (r: Vec<T>)
  ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]);
#[verifier::external_body]
pub fn vp_slice_to_array<T: Copy, const N: usize>(s: &[T]) -> (r: [T; N]) requires s@.len() == N ensures r@ == s@ { s.try_into().unwrap() }

#[verifier::external_body]
pub fn vp_panic() -> (r: !) requires false { panic!() }
pub assume_specification<T> [std::mem::replace] (dest: &mut T, v: T) -> (r: T) ensures r == *old(dest), *final(dest) == v;
pub assume_specification<T: Default> [std::mem::take] (dest: &mut T) -> (r: T) ensures r == *old(dest);
