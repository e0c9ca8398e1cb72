//@alias OR = jester_sharing/src/shared_or_function/joint_unbounded_or.rs
// ---------- the process-wide caches: a map behind a lock, keyed by field type, row and column ----------
// Rely/guarantee: whoever holds the lock may rely on every entry of this field's map being right, and may only
// insert right entries. Which entries are present (what ran before, or runs meanwhile) is left open.
pub trait Table { spec fn ok(k: (isize, isize), v: F) -> bool; }
pub struct Up {}
pub struct Lo {}
impl Table for Up { open spec fn ok(k: (isize, isize), v: F) -> bool { can(v) && v@ == md(nco(k.0 as int, k.1 as int)) } }
impl Table for Lo { open spec fn ok(k: (isize, isize), v: F) -> bool { can(v) && v@ == lo(k.0 as int, k.1 as int) } }
pub struct VpMutex<I> { pub p: core::marker::PhantomData<I> }
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct VpGuard<I> { p: core::marker::PhantomData<I> }
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct VpMap<I> { p: core::marker::PhantomData<I> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct TypeKey<K> { p: core::marker::PhantomData<K> }
impl<I: Table> VpMutex<I> { #[verifier::external_body] // futures Mutex: the lock invariant holds on acquisition
    pub fn lock(&self) -> (r: VpGuard<I>) { unimplemented!() } }
impl<I: Table> VpGuard<I> {
    #[verifier::external_body] // typemap: the map of one key type
    pub fn get<K>(&self) -> (r: Option<&VpMap<I>>) { unimplemented!() }
    #[verifier::external_body] // typemap: the map of one key type
    pub fn entry<K>(&mut self) -> (r: VpMap<I>) { unimplemented!() }
}
impl<I: Table> VpMap<I> {
    #[verifier::external_body] // std HashMap: an entry present was inserted under the lock invariant
    pub fn get(&self, k: &(isize, isize)) -> (r: Option<&F>) ensures r.is_some() ==> I::ok(*k, *r.unwrap()) { unimplemented!() }
    #[verifier::external_body] // typemap: a new map is empty
    pub fn or_insert_with(self, f: VpNew) -> (r: VpMap<I>) { unimplemented!() }
    #[verifier::external_body] // std HashMap
    pub fn insert(&mut self, k: (isize, isize), v: F) requires I::ok(k, v) { unimplemented!() }
}
pub struct VpNew {}
pub exec static INVERTED_VANDERMONDE_MATRIX_UPPER: VpMutex<Up> = VpMutex { p: core::marker::PhantomData };
pub exec static INVERTED_VANDERMONDE_MATRIX_LOWER: VpMutex<Lo> = VpMutex { p: core::marker::PhantomData };
pub fn drop<I>(g: VpGuard<I>) {}
/// coefficient r of (x - 1)(x - 2)..(x - c)
pub open spec fn nco(r: int, c: int) -> int decreases c { if r == c { 1 } else if c <= 0 || r < 0 { 0 } else { nco(r - 1, c - 1) - c * nco(r, c - 1) } }
/// the product of (j - m) over m < k, m != j
pub open spec fn wd(k: int, j: int) -> int decreases k { if k <= 0 { 1 } else if k - 1 == j { wd(k - 1, j) } else { wd(k - 1, j) * (j - (k - 1)) } }
pub open spec fn lo(k: int, j: int) -> int { if k < j { 0 } else { inv(wd(k + 1, j)) } }
/// entry (i, j) of the product of the first n columns and rows
pub open spec fn ent(i: int, j: int, n: int) -> int decreases n { if n <= 0 { 0 } else { ent(i, j, n - 1) + nco(i, n - 1) * lo(n - 1, j) } }
pub proof fn inv_md(x: int, y: int) requires p() > 1, cong(x, y) ensures inv(md(x)) == inv(y), inv(x) == inv(y) { cong_mod(x); }
//@fn OR get_inverted_vandermonde_upper | async chain vis=pub nogenerics nowhere
//@sub T => F
//@sub T:: => F::
//@textsub get_inverted_vandermonde_upper::<F> => get_inverted_vandermonde_upper
//@textsub HashMap::new => VpNew {}
//@drop struct TypeKey<T: 'static>(PhantomData<T>);
//@drop impl<T: 'static> typemap::Key for TypeKey<T> { type Value = HashMap<(isize, isize), T>; }
//@drop static ref INVERTED_VANDERMONDE_MATRIX_UPPER: Mutex<typemap::ShareMap> = Mutex::new(typemap::TypeMap::custom());
//@spec
    requires row >= -1, column >= 0
    ensures can(r), r@ == md(nco(row as int, column as int))
    decreases column
//@at entry
    proof { p_prime(); small_mods(); }
//@closure 1
    -> (o: Option<&F>) ensures o.is_some() ==> Up::ok((row, column), *o.unwrap())
//@at let x 1 after
    proof {
        let (a, b, c) = (nco(row - 1, column - 1), nco(row as int, column - 1), column as int);
        cong_mod(a); cong_mod(b); cong_mod(c); cong_mul(md(b), b, md(c), c); cong_mod(md(b) * md(c)); cong_trans(md(md(b) * md(c)), md(b) * md(c), b * c);
        cong_sub(md(a), a, md(md(b) * md(c)), b * c); assert(c * b == b * c) by(nonlinear_arith);
    }
//@endfn
//@fn OR get_inverted_vandermonde_lower | async chain vis=pub nogenerics nowhere
//@sub T => F
//@sub T:: => F::
//@textsub HashMap::new => VpNew {}
//@drop struct TypeKey<T: 'static>(PhantomData<T>);
//@drop impl<T: 'static> typemap::Key for TypeKey<T> { type Value = HashMap<(isize, isize), T>; }
//@drop static ref INVERTED_VANDERMONDE_MATRIX_LOWER: Mutex<typemap::ShareMap> = Mutex::new(typemap::TypeMap::custom());
//@spec
    requires row >= 0, column >= 0, row < p() - 1, row < isize::MAX
    ensures can(r), r@ == lo(row as int, column as int)
//@at entry
    proof { p_prime(); small_mods(); lemma_small_mod(1, p()); assert(wd(1, 0) == wd(0, 0)); assert(md(1int * 1int) == 1); if row == 0 && column == 0 { inv_unique(1, 1); } }
//@closure 1
    -> (o: Option<&F>) ensures o.is_some() ==> Lo::ok((row, column), *o.unwrap())
//@loop 1
    invariant 0 <= column <= row < p() - 1, row < isize::MAX, is_prime(p()), cong(fprod(__c1@), wd(__i1 as int, column as int)), md(wd(__i1 as int, column as int)) != 0
//@at loop 1 before
    proof { assert(fprod(__c1@) == 1); assert(wd(0, column as int) == 1); }
//@at loop 1 start
    let ghost cb = __c1@;
//@at loop 1 end
    proof {
        let (j, m) = (column as int, __i1 as int); let w = wd(m, j);
        if m != j {
            let e = __c1@.last()@; assert(__c1@.drop_last() =~= cb);
            cong_mod(j); cong_mod(m); cong_sub(md(j), j, md(m), m); cong_mod(md(j) - md(m)); cong_trans(e, md(j) - md(m), j - m);
            cong_mul(fprod(cb), w, e, j - m); diff_nonzero(j, m); prime_product(w, j - m);
        }
    }
//@at loop 1 after
    proof { let w = wd(row + 1, column as int); cong_mod(fprod(__c1@)); inv_md(fprod(__c1@), w); assert(md(md(fprod(__c1@))) == md(w)); }
//@endfn
//@fn OR get_inverted_vandermonde_entry | async chain vis=pub nogenerics nowhere
//@sub T => F
//@sub T:: => F::
//@textsub get_inverted_vandermonde_upper::<F> => get_inverted_vandermonde_upper
//@textsub get_inverted_vandermonde_lower::<F> => get_inverted_vandermonde_lower
//@spec
    requires row >= 0, column >= 0, 0 < matrix_size < p(), matrix_size <= isize::MAX
    ensures can(r), r@ == md(ent(row as int, column as int, matrix_size as int))
//@at entry
    proof { p_prime(); small_mods(); }
//@loop 1
    invariant row >= 0, column >= 0, 0 < matrix_size < p(), matrix_size <= isize::MAX, can(acc), p() > 1, acc@ == md(ent(row as int, column as int, index as int))
//@at loop 1 start
    let ghost a0 = acc@;
//@at loop 1 end
    proof {
        let (k, i, j) = (index as int, row as int, column as int); let (x, y) = (nco(i, k), lo(k, j)); let e = ent(i, j, k);
        cong_mod(x); cong_mul(md(x), x, y, y); cong_mod(md(x) * y); cong_trans(md(md(x) * y), md(x) * y, x * y);
        cong_mod(e); cong_add(md(e), e, md(md(x) * y), x * y);
    }
//@endfn
