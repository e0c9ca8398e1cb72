// ---------- glue for the sharing protocols ----------
#[verifier::external_body] // element i of a vector consumed by value (into_iter): the value itself
pub fn vp_take<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
pub fn vp_min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
pub fn vp_range_len(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b - a } else { 0 }) { if a < b { b - a } else { 0 } }
//@absent FIELD FromPrimitive for F::from_isize
//@absent FIELD FromPrimitive for F::from_usize
impl F {
    /// num-traits: the default of FromPrimitive::from_isize (not overridden, see above)
    pub fn from_isize(n: isize) -> (r: Option<F>) ensures r.is_some(), r.unwrap()@ == md(n as int), can(r.unwrap()) { F::from_i64(n as i64) }
    /// num-traits: the default of FromPrimitive::from_usize
    pub fn from_usize(n: usize) -> (r: Option<F>) ensures r.is_some(), r.unwrap()@ == md(n as int), can(r.unwrap()) { F::from_u64(n as u64) }
}
impl BigUint {
    #[verifier::external_body] // num-bigint
    pub fn from_usize(n: usize) -> (r: Option<BigUint>) ensures r.is_some(), r.unwrap()@ == n { unimplemented!() }
    #[verifier::external_body] // num-bigint
    pub fn from_isize(n: isize) -> (r: Option<BigUint>) ensures r.is_some() == (n >= 0), n >= 0 ==> r.unwrap()@ == n { unimplemented!() }
}
#[verifier::external_body] // Clone of a tuple clones its parts (core), and clones of field elements denote the same number
pub proof fn clone_pair(a: (usize, F), b: (usize, F)) requires cloned(a, b) ensures b.0 == a.0, b.1@ == a.1@ {}
impl FromSpecImpl<usize> for BigUint { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: usize) -> BigUint { arbitrary() } }
impl core::convert::From<usize> for BigUint { #[verifier::external_body] // num-bigint
    fn from(v: usize) -> (r: BigUint) ensures r@ == v { unimplemented!() } }
