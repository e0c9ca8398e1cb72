// ---------- num-bigint, by contract (assumed) ----------
#[verifier::external_body]
pub struct BigUint { x: u8 }
impl BigUint { pub uninterp spec fn view(&self) -> nat; }
#[verifier::external_body]
#[derive(Debug)]
pub struct ParseBigIntError { x: u8 }
impl Clone for BigUint { #[verifier::external_body] // num-bigint
    fn clone(&self) -> (r: BigUint) ensures r@ == self@ { unimplemented!() } }

impl AddSpecImpl<BigUint> for BigUint { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, rhs: BigUint) -> bool { true } open spec fn add_spec(self, rhs: BigUint) -> BigUint { arbitrary() } }
impl core::ops::Add<BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn add(self, rhs: BigUint) -> (r: BigUint) ensures r@ == self@ + rhs@ { unimplemented!() } }
impl AddSpecImpl<&BigUint> for BigUint { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, rhs: &BigUint) -> bool { true } open spec fn add_spec(self, rhs: &BigUint) -> BigUint { arbitrary() } }
impl core::ops::Add<&BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn add(self, rhs: &BigUint) -> (r: BigUint) ensures r@ == self@ + rhs@ { unimplemented!() } }
impl AddSpecImpl<BigUint> for &BigUint { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, rhs: BigUint) -> bool { true } open spec fn add_spec(self, rhs: BigUint) -> BigUint { arbitrary() } }
impl core::ops::Add<BigUint> for &BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn add(self, rhs: BigUint) -> (r: BigUint) ensures r@ == self@ + rhs@ { unimplemented!() } }
impl AddSpecImpl<&BigUint> for &BigUint { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, rhs: &BigUint) -> bool { true } open spec fn add_spec(self, rhs: &BigUint) -> BigUint { arbitrary() } }
impl core::ops::Add<&BigUint> for &BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn add(self, rhs: &BigUint) -> (r: BigUint) ensures r@ == self@ + rhs@ { unimplemented!() } }
impl AddAssignSpecImpl<BigUint> for BigUint { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, rhs: BigUint) -> bool { true } open spec fn add_assign_spec(&self, rhs: BigUint) -> &BigUint { arbitrary() } }
impl core::ops::AddAssign<BigUint> for BigUint { #[verifier::external_body] // num-bigint
    fn add_assign(&mut self, rhs: BigUint) ensures final(self)@ == old(self)@ + rhs@ { unimplemented!() } }
impl AddAssignSpecImpl<&BigUint> for BigUint { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, rhs: &BigUint) -> bool { true } open spec fn add_assign_spec(&self, rhs: &BigUint) -> &BigUint { arbitrary() } }
impl core::ops::AddAssign<&BigUint> for BigUint { #[verifier::external_body] // num-bigint
    fn add_assign(&mut self, rhs: &BigUint) ensures final(self)@ == old(self)@ + rhs@ { unimplemented!() } }
impl SubSpecImpl<BigUint> for BigUint { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, rhs: BigUint) -> bool { self@ >= rhs@ } open spec fn sub_spec(self, rhs: BigUint) -> BigUint { arbitrary() } }
impl core::ops::Sub<BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn sub(self, rhs: BigUint) -> (r: BigUint) ensures r@ == self@ - rhs@ { unimplemented!() } }
impl SubSpecImpl<&BigUint> for BigUint { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, rhs: &BigUint) -> bool { self@ >= rhs@ } open spec fn sub_spec(self, rhs: &BigUint) -> BigUint { arbitrary() } }
impl core::ops::Sub<&BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn sub(self, rhs: &BigUint) -> (r: BigUint) ensures r@ == self@ - rhs@ { unimplemented!() } }
impl SubSpecImpl<BigUint> for &BigUint { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, rhs: BigUint) -> bool { self@ >= rhs@ } open spec fn sub_spec(self, rhs: BigUint) -> BigUint { arbitrary() } }
impl core::ops::Sub<BigUint> for &BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn sub(self, rhs: BigUint) -> (r: BigUint) ensures r@ == self@ - rhs@ { unimplemented!() } }
impl SubSpecImpl<&BigUint> for &BigUint { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, rhs: &BigUint) -> bool { self@ >= rhs@ } open spec fn sub_spec(self, rhs: &BigUint) -> BigUint { arbitrary() } }
impl core::ops::Sub<&BigUint> for &BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn sub(self, rhs: &BigUint) -> (r: BigUint) ensures r@ == self@ - rhs@ { unimplemented!() } }
impl SubAssignSpecImpl<BigUint> for BigUint { open spec fn obeys_sub_assign_spec() -> bool { false } open spec fn sub_assign_req(&self, rhs: BigUint) -> bool { self@ >= rhs@ } open spec fn sub_assign_spec(&self, rhs: BigUint) -> &BigUint { arbitrary() } }
impl core::ops::SubAssign<BigUint> for BigUint { #[verifier::external_body] // num-bigint
    fn sub_assign(&mut self, rhs: BigUint) ensures final(self)@ == old(self)@ - rhs@ { unimplemented!() } }
impl SubAssignSpecImpl<&BigUint> for BigUint { open spec fn obeys_sub_assign_spec() -> bool { false } open spec fn sub_assign_req(&self, rhs: &BigUint) -> bool { self@ >= rhs@ } open spec fn sub_assign_spec(&self, rhs: &BigUint) -> &BigUint { arbitrary() } }
impl core::ops::SubAssign<&BigUint> for BigUint { #[verifier::external_body] // num-bigint
    fn sub_assign(&mut self, rhs: &BigUint) ensures final(self)@ == old(self)@ - rhs@ { unimplemented!() } }
impl MulSpecImpl<BigUint> for BigUint { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, rhs: BigUint) -> bool { true } open spec fn mul_spec(self, rhs: BigUint) -> BigUint { arbitrary() } }
impl core::ops::Mul<BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn mul(self, rhs: BigUint) -> (r: BigUint) ensures r@ == self@ * rhs@ { unimplemented!() } }
impl MulSpecImpl<&BigUint> for BigUint { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, rhs: &BigUint) -> bool { true } open spec fn mul_spec(self, rhs: &BigUint) -> BigUint { arbitrary() } }
impl core::ops::Mul<&BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn mul(self, rhs: &BigUint) -> (r: BigUint) ensures r@ == self@ * rhs@ { unimplemented!() } }
impl MulSpecImpl<BigUint> for &BigUint { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, rhs: BigUint) -> bool { true } open spec fn mul_spec(self, rhs: BigUint) -> BigUint { arbitrary() } }
impl core::ops::Mul<BigUint> for &BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn mul(self, rhs: BigUint) -> (r: BigUint) ensures r@ == self@ * rhs@ { unimplemented!() } }
impl MulSpecImpl<&BigUint> for &BigUint { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, rhs: &BigUint) -> bool { true } open spec fn mul_spec(self, rhs: &BigUint) -> BigUint { arbitrary() } }
impl core::ops::Mul<&BigUint> for &BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn mul(self, rhs: &BigUint) -> (r: BigUint) ensures r@ == self@ * rhs@ { unimplemented!() } }
impl MulAssignSpecImpl<BigUint> for BigUint { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, rhs: BigUint) -> bool { true } open spec fn mul_assign_spec(&self, rhs: BigUint) -> &BigUint { arbitrary() } }
impl core::ops::MulAssign<BigUint> for BigUint { #[verifier::external_body] // num-bigint
    fn mul_assign(&mut self, rhs: BigUint) ensures final(self)@ == old(self)@ * rhs@ { unimplemented!() } }
impl MulAssignSpecImpl<&BigUint> for BigUint { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, rhs: &BigUint) -> bool { true } open spec fn mul_assign_spec(&self, rhs: &BigUint) -> &BigUint { arbitrary() } }
impl core::ops::MulAssign<&BigUint> for BigUint { #[verifier::external_body] // num-bigint
    fn mul_assign(&mut self, rhs: &BigUint) ensures final(self)@ == old(self)@ * rhs@ { unimplemented!() } }
impl DivSpecImpl<BigUint> for BigUint { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, rhs: BigUint) -> bool { rhs@ != 0 } open spec fn div_spec(self, rhs: BigUint) -> BigUint { arbitrary() } }
impl core::ops::Div<BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn div(self, rhs: BigUint) -> (r: BigUint) ensures r@ == self@ / rhs@ { unimplemented!() } }
impl DivSpecImpl<&BigUint> for BigUint { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, rhs: &BigUint) -> bool { rhs@ != 0 } open spec fn div_spec(self, rhs: &BigUint) -> BigUint { arbitrary() } }
impl core::ops::Div<&BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn div(self, rhs: &BigUint) -> (r: BigUint) ensures r@ == self@ / rhs@ { unimplemented!() } }
impl DivSpecImpl<BigUint> for &BigUint { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, rhs: BigUint) -> bool { rhs@ != 0 } open spec fn div_spec(self, rhs: BigUint) -> BigUint { arbitrary() } }
impl core::ops::Div<BigUint> for &BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn div(self, rhs: BigUint) -> (r: BigUint) ensures r@ == self@ / rhs@ { unimplemented!() } }
impl DivSpecImpl<&BigUint> for &BigUint { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, rhs: &BigUint) -> bool { rhs@ != 0 } open spec fn div_spec(self, rhs: &BigUint) -> BigUint { arbitrary() } }
impl core::ops::Div<&BigUint> for &BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn div(self, rhs: &BigUint) -> (r: BigUint) ensures r@ == self@ / rhs@ { unimplemented!() } }
impl DivAssignSpecImpl<BigUint> for BigUint { open spec fn obeys_div_assign_spec() -> bool { false } open spec fn div_assign_req(&self, rhs: BigUint) -> bool { rhs@ != 0 } open spec fn div_assign_spec(&self, rhs: BigUint) -> &BigUint { arbitrary() } }
impl core::ops::DivAssign<BigUint> for BigUint { #[verifier::external_body] // num-bigint
    fn div_assign(&mut self, rhs: BigUint) ensures final(self)@ == old(self)@ / rhs@ { unimplemented!() } }
impl DivAssignSpecImpl<&BigUint> for BigUint { open spec fn obeys_div_assign_spec() -> bool { false } open spec fn div_assign_req(&self, rhs: &BigUint) -> bool { rhs@ != 0 } open spec fn div_assign_spec(&self, rhs: &BigUint) -> &BigUint { arbitrary() } }
impl core::ops::DivAssign<&BigUint> for BigUint { #[verifier::external_body] // num-bigint
    fn div_assign(&mut self, rhs: &BigUint) ensures final(self)@ == old(self)@ / rhs@ { unimplemented!() } }
impl RemSpecImpl<BigUint> for BigUint { open spec fn obeys_rem_spec() -> bool { false } open spec fn rem_req(self, rhs: BigUint) -> bool { rhs@ != 0 } open spec fn rem_spec(self, rhs: BigUint) -> BigUint { arbitrary() } }
impl core::ops::Rem<BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn rem(self, rhs: BigUint) -> (r: BigUint) ensures r@ == self@ % rhs@ { unimplemented!() } }
impl RemSpecImpl<&BigUint> for BigUint { open spec fn obeys_rem_spec() -> bool { false } open spec fn rem_req(self, rhs: &BigUint) -> bool { rhs@ != 0 } open spec fn rem_spec(self, rhs: &BigUint) -> BigUint { arbitrary() } }
impl core::ops::Rem<&BigUint> for BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn rem(self, rhs: &BigUint) -> (r: BigUint) ensures r@ == self@ % rhs@ { unimplemented!() } }
impl RemSpecImpl<BigUint> for &BigUint { open spec fn obeys_rem_spec() -> bool { false } open spec fn rem_req(self, rhs: BigUint) -> bool { rhs@ != 0 } open spec fn rem_spec(self, rhs: BigUint) -> BigUint { arbitrary() } }
impl core::ops::Rem<BigUint> for &BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn rem(self, rhs: BigUint) -> (r: BigUint) ensures r@ == self@ % rhs@ { unimplemented!() } }
impl RemSpecImpl<&BigUint> for &BigUint { open spec fn obeys_rem_spec() -> bool { false } open spec fn rem_req(self, rhs: &BigUint) -> bool { rhs@ != 0 } open spec fn rem_spec(self, rhs: &BigUint) -> BigUint { arbitrary() } }
impl core::ops::Rem<&BigUint> for &BigUint { type Output = BigUint; #[verifier::external_body] // num-bigint
    fn rem(self, rhs: &BigUint) -> (r: BigUint) ensures r@ == self@ % rhs@ { unimplemented!() } }
impl RemAssignSpecImpl<BigUint> for BigUint { open spec fn obeys_rem_assign_spec() -> bool { false } open spec fn rem_assign_req(&self, rhs: BigUint) -> bool { rhs@ != 0 } open spec fn rem_assign_spec(&self, rhs: BigUint) -> &BigUint { arbitrary() } }
impl core::ops::RemAssign<BigUint> for BigUint { #[verifier::external_body] // num-bigint
    fn rem_assign(&mut self, rhs: BigUint) ensures final(self)@ == old(self)@ % rhs@ { unimplemented!() } }
impl RemAssignSpecImpl<&BigUint> for BigUint { open spec fn obeys_rem_assign_spec() -> bool { false } open spec fn rem_assign_req(&self, rhs: &BigUint) -> bool { rhs@ != 0 } open spec fn rem_assign_spec(&self, rhs: &BigUint) -> &BigUint { arbitrary() } }
impl core::ops::RemAssign<&BigUint> for BigUint { #[verifier::external_body] // num-bigint
    fn rem_assign(&mut self, rhs: &BigUint) ensures final(self)@ == old(self)@ % rhs@ { unimplemented!() } }
pub open spec fn nat_cmp(a: nat, b: nat) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
impl PartialEqSpecImpl<BigUint> for BigUint { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &BigUint) -> bool { self@ == o@ } }
impl core::cmp::PartialEq<BigUint> for BigUint { #[verifier::external_body] // num-bigint
    fn eq(&self, o: &BigUint) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl<BigUint> for BigUint { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &BigUint) -> Option<core::cmp::Ordering> { Some(nat_cmp(self@, o@)) } }
impl core::cmp::PartialOrd<BigUint> for BigUint { #[verifier::external_body] // num-bigint
    fn partial_cmp(&self, o: &BigUint) -> Option<core::cmp::Ordering> { unimplemented!() } }
/// num::Zero and num::One, with the value a number denotes
pub trait Zero: Sized { spec fn zv(&self) -> nat; fn zero() -> (r: Self) ensures r.zv() == 0; fn is_zero(&self) -> (b: bool) ensures b == (self.zv() == 0); }
pub trait One: Sized { spec fn ov(&self) -> nat; fn one() -> (r: Self) ensures r.ov() == 1; fn is_one(&self) -> (b: bool) ensures b == (self.ov() == 1); }
impl Zero for BigUint { open spec fn zv(&self) -> nat { self@ }
    #[verifier::external_body] // num-bigint
    fn zero() -> (r: BigUint) { unimplemented!() }
    #[verifier::external_body] // num-bigint
    fn is_zero(&self) -> bool { unimplemented!() } }
impl One for BigUint { open spec fn ov(&self) -> nat { self@ }
    #[verifier::external_body] // num-bigint
    fn one() -> (r: BigUint) { unimplemented!() }
    #[verifier::external_body] // num-bigint
    fn is_one(&self) -> bool { unimplemented!() } }
/// the value of a little-endian byte string
pub open spec fn le_val(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le_val(s.drop_first()) } }
pub open spec fn rev(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
/// the shortest little-endian encoding (one zero byte for zero)
pub open spec fn is_le_of(s: Seq<u8>, n: nat) -> bool { le_val(s) == n && s.len() >= 1 && (s.len() > 1 ==> s.last() != 0) }
/// what a digit string denotes in a radix, if it is one
pub uninterp spec fn digits(s: Seq<char>, radix: int) -> Option<nat>;
impl BigUint {
    #[verifier::external_body] // num-bigint
    pub fn modpow(&self, e: &BigUint, m: &BigUint) -> (r: BigUint) requires m@ != 0 ensures r@ == pow(self@ as int, e@) % (m@ as int), r@ < m@ { unimplemented!() }
    #[verifier::external_body] // num-bigint
    pub fn from_u64(n: u64) -> (r: Option<BigUint>) ensures r.is_some(), r.unwrap()@ == n { unimplemented!() }
    #[verifier::external_body] // num-bigint
    pub fn from_i64(n: i64) -> (r: Option<BigUint>) ensures r.is_some() == (n >= 0), n >= 0 ==> r.unwrap()@ == n { unimplemented!() }
    #[verifier::external_body] // num-bigint
    pub fn from_str_radix(s: &str, radix: u32) -> (r: Result<BigUint, ParseBigIntError>) requires 2 <= radix <= 36
        ensures r.is_ok() == digits(s@, radix as int).is_some(), r.is_ok() ==> r.unwrap()@ == digits(s@, radix as int).unwrap() { unimplemented!() }
    #[verifier::external_body] // num-bigint
    pub fn from_bytes_le(b: &[u8]) -> (r: BigUint) ensures r@ == le_val(b@) { unimplemented!() }
    #[verifier::external_body] // num-bigint
    pub fn from_bytes_be(b: &[u8]) -> (r: BigUint) ensures r@ == le_val(rev(b@)) { unimplemented!() }
    #[verifier::external_body] // num-bigint
    pub fn to_bytes_le(&self) -> (r: Vec<u8>) ensures is_le_of(r@, self@) { unimplemented!() }
    #[verifier::external_body] // num-bigint
    pub fn to_bytes_be(&self) -> (r: Vec<u8>) ensures is_le_of(rev(r@), self@) { unimplemented!() }
}
/// a random number generator with the log of its draws: (exclusive bound, value)
#[verifier::external_body]
pub struct VpRng { x: u8 }
impl VpRng {
    pub uninterp spec fn log(&self) -> Seq<(nat, nat)>;
    #[verifier::external_body] // num-bigint RandBigInt: one uniform draw below the bound
    pub fn gen_biguint_below(&mut self, bound: &BigUint) -> (r: BigUint) requires bound@ != 0 ensures r@ < bound@, final(self).log() == old(self).log().push((bound@, r@)) { unimplemented!() }
}
