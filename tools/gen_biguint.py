#!/usr/bin/env python3
"""units/lib/biguint.vrs: the assumed contracts of num-bigint (every item is external_body)"""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = []
w = o.append
w('''// ---------- num-bigint, by contract (assumed) ----------
#[verifier::external_body]
#[verifier::reject_recursive_types_in_ground_variants()]
pub struct BigUint { x: u8 }
pub enum VpOrd { Lt, Eq, Gt }
impl BigUint { pub uninterp spec fn view(&self) -> nat; }
#[verifier::external_body]
#[derive(Debug)]
pub struct ParseBigIntError { x: u8 }
impl Clone for BigUint { #[verifier::external_body] // num-bigint
    fn clone(&self) -> (r: BigUint) ensures r@ == self@ { unimplemented!() } }
''')
o[-1] = o[-1].replace('#[verifier::reject_recursive_types_in_ground_variants()]\n', '').replace('pub enum VpOrd { Lt, Eq, Gt }\n', '')
OPS = [('Add', 'add', 'true', 'r@ == self@ + rhs@'), ('Sub', 'sub', 'self@ >= rhs@', 'r@ == self@ - rhs@'), ('Mul', 'mul', 'true', 'r@ == self@ * rhs@'),
       ('Div', 'div', 'rhs@ != 0', 'r@ == self@ / rhs@'), ('Rem', 'rem', 'rhs@ != 0', 'r@ == self@ % rhs@')]
for T, f, req, ens in OPS:
    for a in ['BigUint', '&BigUint']:
        for b in ['BigUint', '&BigUint']:
            w('impl %sSpecImpl<%s> for %s { open spec fn obeys_%s_spec() -> bool { false } open spec fn %s_req(self, rhs: %s) -> bool { %s } open spec fn %s_spec(self, rhs: %s) -> BigUint { arbitrary() } }' % (T, b, a, f, f, b, req, f, b))
            w('impl core::ops::%s<%s> for %s { type Output = BigUint; #[verifier::external_body] // num-bigint\n    fn %s(self, rhs: %s) -> (r: BigUint) ensures %s { unimplemented!() } }' % (T, b, a, f, b, ens))
    for b in ['BigUint', '&BigUint']:
        w('impl %sAssignSpecImpl<%s> for BigUint { open spec fn obeys_%s_assign_spec() -> bool { false } open spec fn %s_assign_req(&self, rhs: %s) -> bool { %s } open spec fn %s_assign_spec(&self, rhs: %s) -> &BigUint { arbitrary() } }' % (T, b, f, f, b, req, f, b))
        w('impl core::ops::%sAssign<%s> for BigUint { #[verifier::external_body] // num-bigint\n    fn %s_assign(&mut self, rhs: %s) ensures %s { unimplemented!() } }' % (T, b, f, b, ens.replace('r@ ==', 'final(self)@ ==').replace('== self@', '== old(self)@')))
w('''pub open spec fn nat_cmp(a: nat, b: nat) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
impl PartialEqSpecImpl<BigUint> for BigUint { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &BigUint) -> bool { self@ == o@ } }
impl core::cmp::PartialEq<BigUint> for BigUint { #[verifier::external_body] // num-bigint
    fn eq(&self, o: &BigUint) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl<BigUint> for BigUint { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &BigUint) -> Option<core::cmp::Ordering> { Some(nat_cmp(self@, o@)) } }
impl core::cmp::PartialOrd<BigUint> for BigUint { #[verifier::external_body] // num-bigint
    fn partial_cmp(&self, o: &BigUint) -> Option<core::cmp::Ordering> { unimplemented!() } }
/// num::Zero and num::One, with the value a number denotes
pub trait Zero: Sized { spec fn zv(&self) -> nat; fn zero() -> (r: Self) ensures r.zv() == 0; fn is_zero(&self) -> (b: bool) ensures b == (self.zv() == 0); }
pub trait One: Sized { spec fn ov(&self) -> nat; fn one() -> (r: Self) ensures r.ov() == 1; fn is_one(&self) -> (b: bool) ensures b == (self.ov() == 1); }
impl Zero for BigUint { open spec fn zv(&self) -> nat { self@ }
    #[verifier::external_body] // num-bigint
    fn zero() -> (r: BigUint) { unimplemented!() }
    #[verifier::external_body] // num-bigint
    fn is_zero(&self) -> bool { unimplemented!() } }
impl One for BigUint { open spec fn ov(&self) -> nat { self@ }
    #[verifier::external_body] // num-bigint
    fn one() -> (r: BigUint) { unimplemented!() }
    #[verifier::external_body] // num-bigint
    fn is_one(&self) -> bool { unimplemented!() } }
/// the value of a little-endian byte string
pub open spec fn le_val(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le_val(s.drop_first()) } }
pub open spec fn rev(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
/// the shortest little-endian encoding (one zero byte for zero)
pub open spec fn is_le_of(s: Seq<u8>, n: nat) -> bool { le_val(s) == n && s.len() >= 1 && (s.len() > 1 ==> s.last() != 0) }
/// what a digit string denotes in a radix, if it is one
pub uninterp spec fn digits(s: Seq<char>, radix: int) -> Option<nat>;
impl BigUint {
    #[verifier::external_body] // num-bigint
    pub fn modpow(&self, e: &BigUint, m: &BigUint) -> (r: BigUint) requires m@ != 0 ensures r@ == pow(self@ as int, e@) % (m@ as int), r@ < m@ { unimplemented!() }
    #[verifier::external_body] // num-bigint
    pub fn from_u64(n: u64) -> (r: Option<BigUint>) ensures r.is_some(), r.unwrap()@ == n { unimplemented!() }
    #[verifier::external_body] // num-bigint
    pub fn from_i64(n: i64) -> (r: Option<BigUint>) ensures r.is_some() == (n >= 0), n >= 0 ==> r.unwrap()@ == n { unimplemented!() }
    #[verifier::external_body] // num-bigint
    pub fn from_str_radix(s: &str, radix: u32) -> (r: Result<BigUint, ParseBigIntError>) requires 2 <= radix <= 36
        ensures r.is_ok() == digits(s@, radix as int).is_some(), r.is_ok() ==> r.unwrap()@ == digits(s@, radix as int).unwrap() { unimplemented!() }
    #[verifier::external_body] // num-bigint
    pub fn from_bytes_le(b: &[u8]) -> (r: BigUint) ensures r@ == le_val(b@) { unimplemented!() }
    #[verifier::external_body] // num-bigint
    pub fn from_bytes_be(b: &[u8]) -> (r: BigUint) ensures r@ == le_val(rev(b@)) { unimplemented!() }
    #[verifier::external_body] // num-bigint
    pub fn to_bytes_le(&self) -> (r: Vec<u8>) ensures is_le_of(r@, self@) { unimplemented!() }
    #[verifier::external_body] // num-bigint
    pub fn to_bytes_be(&self) -> (r: Vec<u8>) ensures is_le_of(rev(r@), self@) { unimplemented!() }
}
/// a random number generator with the log of its draws: (exclusive bound, value)
#[verifier::external_body]
pub struct VpRng { x: u8 }
impl VpRng {
    pub uninterp spec fn log(&self) -> Seq<(nat, nat)>;
    #[verifier::external_body] // num-bigint RandBigInt: one uniform draw below the bound
    pub fn gen_biguint_below(&mut self, bound: &BigUint) -> (r: BigUint) requires bound@ != 0 ensures r@ < bound@, final(self).log() == old(self).log().push((bound@, r@)) { unimplemented!() }
}''')
open(V + '/units/lib/biguint.vrs', 'w').write('\n'.join(o) + '\n')
