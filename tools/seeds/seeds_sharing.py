import os
PRE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sharing_pre.txt')).read()
D = ['sharing', 'maths']
J = 'jester_sharing/src/'
SH = J + 'threshold_sharing/shamir_secret_sharing.rs'
BV = J + 'multiplication/beaver_randomization_multiplication.rs'
INV = J + 'inversion/unbounded_inversion.rs'
OR = J + 'shared_or_function/joint_unbounded_or.rs'
RN = J + 'random_number_generation/sum_random_number_generation.rs'
CS = J + 'conditional_selection/joint_conditional_selection.rs'
PM = 'jester_sharing/jester_sharing_proc/src/lib.rs'
GEN = '''
type F = Mersenne61;
fn gen(g: &mut Gen, s: &F, n: usize, t: usize) -> V<F> { <Sham as ThresholdSecretSharingScheme<F, (usize, F)>>::generate_shares(g, s, n, t) }
fn rec(v: &[(usize, F)], t: usize) -> F { <Sham as ThresholdSecretSharingScheme<F, (usize, F)>>::reconstruct_secret(v, t) }
'''
COEF = '''
type F = %s;
/// coefficients of the polynomial through shares 1..t, by solving the linear system
fn coefs(v: &V<F>) -> Vec<F> {
    let k = v.len();
    let mut m: Vec<Vec<F>> = v.iter().map(|(x, y)| { let x: F = f(*x as u64); let mut e: F = F::one(); let mut r = vec![]; for _ in 0..k { r.push(e.clone()); e = e * x.clone(); } r.push(y.clone()); r }).collect();
    for c in 0..k { let r = (c..k).find(|r| !m[*r][c].is_zero()).unwrap(); m.swap(c, r); let iv = m[c][c].inverse();
        for j in c..=k { m[c][j] = m[c][j].clone() * iv.clone(); }
        for r in 0..k { if r != c { let w = m[r][c].clone(); for j in c..=k { m[r][j] = m[r][j].clone() - w.clone() * m[c][j].clone(); } } } }
    (0..k).map(|r| m[r][k].clone()).collect()
}
fn gen(g: &mut Gen, s: &F, n: usize, t: usize) -> V<F> { <Sham as ThresholdSecretSharingScheme<F, (usize, F)>>::generate_shares(g, s, n, t) }
'''
ORF = '''
fn or<F: PrimeField + Send + Sync + 'static>(bits: &[u64], seed: u64) -> F {
    let mut p = All::<F>::new(3, 2, seed);
    let mut g = Gen(seed + 1);
    let v: Vec<V<F>> = bits.iter().map(|b| { let mut h = Gen(seed + 7); deal(&mut h, &f::<F>(*b), 3, 2) }).collect();
    loop {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block_on(<JointUnboundedOrFunction<F, V<F>, All<F>> as UnboundedOrFunctionScheme<F, V<F>, All<F>>>::unbounded_shared_or(&mut g, &mut p, &v))));
        let zero = p.contributions.iter().any(|c| c.iter().cloned().sum::<F>().is_zero());
        p.contributions.clear();
        if !zero { return open(&r.unwrap(), 2); }
    }
}
'''
SEEDS = [
 dict(id='S01-index-distance', prop='S01', file=SH, old='.mul(T::from_isize(*i as isize - *j as isize).unwrap().inverse())', new='.mul(T::from_i8((*i as i8).wrapping_sub(*j as i8)).unwrap().inverse())',
   needs='two selected shares whose indices are at least 128 apart', breaks='the Lagrange weight is computed from a wrapped difference', main=PRE+GEN+'''
fn main() { let mut g = Gen(5); let s: F = f(123456789); let v = gen(&mut g, &s, 200, 3);
  for k in [[0usize, 1, 2], [7, 3, 50], [0, 100, 60], [0, 150, 3], [199, 1, 64]] { let sel: Vec<_> = k.iter().map(|i| v[*i].clone()).collect(); check(&format!("reconstruct from {:?}", k), rec(&sel, 3) == s); } }
''', deps=D),
 dict(id='S01-position', prop='S01', edits=[(SH, '''            .map(|(i, share)| {
                share.clone().mul(''', '''            .enumerate()
            .map(|(position, (_, share))| {
                let i = &(position + 1);
                share.clone().mul('''), (SH, '''                        .filter(|(j, _)| *i != *j)
                        .map(|(j, _)| {''', '''                        .enumerate()
                        .map(|(position, _)| position + 1)
                        .filter(|j| *i != *j)
                        .map(|j| {
                            let j = &j;''')],
   needs='a selection other than the first shares in their original order', breaks='the position in the list is taken for the index of the share', main=PRE+GEN+'''
fn main() { let mut g = Gen(5); let s: F = f(42); let v = gen(&mut g, &s, 5, 3);
  check("first three", rec(&v, 3) == s); check("last three", rec(&v[2..], 3) == s); let w = [v[1].clone(), v[0].clone(), v[2].clone()]; check("reordered", rec(&w, 3) == s); }
''', deps=D),
 dict(id='S02-leading-nonzero', prop='S02', file=SH, old='.map(|i| (i, T::generate_random_member(rng)))', new='''.map(|i| {
                let mut coefficient = T::generate_random_member(rng);
                // the polynomial must have exactly the requested degree
                while i == threshold - 1 && coefficient.is_zero() {
                    coefficient = T::generate_random_member(rng);
                }
                (i, coefficient)
            })''',
   needs='many sharings in a small field: the leading coefficient is never zero', breaks='t - 1 shares exclude one candidate for the secret', main=PRE+COEF % 'Q11'+'''
fn main() { let mut g = Gen(9); let s: F = f(4); let mut zero = 0;
  for _ in 0..2000 { let v = gen(&mut g, &s, 3, 3); if coefs(&v)[2].is_zero() { zero += 1 } }
  check(&format!("the leading coefficient was zero {} times in 2000", zero), zero > 80 && zero < 350); }
''', deps=D),
 dict(id='S02-coefficient-reuse', prop='S02', file=SH, old='.map(|i| (i, T::generate_random_member(rng)))\n            .collect::<Vec<_>>();', new='.map(|i| (i, T::generate_random_member(rng)))\n            .take(4)\n            .collect::<Vec<_>>();\n        let polynomial = (1..threshold)\n            .map(|i| (i, polynomial[(i - 1) % polynomial.len()].1.clone()))\n            .collect::<Vec<_>>();',
   needs='a threshold above five', breaks='coefficients repeat, so fewer than threshold shares determine the secret', main=PRE+COEF % 'Mersenne61'+'''
fn main() { let mut g = Gen(9); let s: F = f(4);
  for t in 2..8 { let c = coefs(&gen(&mut g, &s, t, t)); check("constant", c[0] == s); for i in 1..t { for j in 1..i { check(&format!("threshold {}: coefficients {} and {} are equal", t, j, i), c[i] != c[j]); } } } }
''', deps=D),
 dict(id='S02-word-coefficients', prop='S02', file=SH, old='.map(|i| (i, T::generate_random_member(rng)))', new='.map(|i| -> (usize, T) { (i, BigUint::from(rng.next_u64()).into()) })',
   needs='a field larger than 64 bits', breaks='the coefficients cover a tiny part of the field', main=PRE+COEF % 'Mersenne127'+'''
fn main() { let mut g = Gen(9); let s: F = f(4); let mut high = 0;
  for _ in 0..40 { let c = coefs(&gen(&mut g, &s, 3, 3)); if c[1].as_uint().bits() > 100 { high += 1 } }
  check("no coefficient beyond 100 bits", high > 30); }
''', deps=D),
 dict(id='S03-scalar-first-party', prop='S03', file=SH, old='(share.0, share.1.clone() - scalar.clone())', new='''if share.0 <= 1 {
            (share.0, share.1.clone() - scalar.clone())
        } else {
            share.clone()
        }''',
   needs='a party other than the first', breaks='a public constant is subtracted by the first party only, as in additive sharing', main=PRE+GEN+'''
fn main() { let mut g = Gen(5); let mut p = All::<F>::new(4, 3, 1); let v = deal(&mut g, &f(50), 4, 3); let w = <All<F> as LinearSharingScheme<F, V<F>>>::sub_scalar(&v, &f(8)); let _ = &mut p;
  check("50 - 8", open(&w, 3) == f(42)); }
''', deps=D),
 dict(id='S03-sum-duplicates', prop='S03', file=SH, old='shares.iter().map(|(_, y)| y.clone()).sum(),', new='''{
                    let mut values: Vec<_> = shares.iter().map(|(_, y)| y.clone()).collect();
                    values.dedup();
                    values.into_iter().sum()
                },''',
   needs='two equal neighbouring shares in a sum', breaks='a repeated summand is counted once', main=PRE+GEN+'''
fn main() { let mut g = Gen(5); let v = deal(&mut g, &f(5), 4, 2); let w = deal(&mut g, &f(9), 4, 2);
  check("5 + 9", open(&<All<F> as LinearSharingScheme<F, V<F>>>::sum_shares(&[v.clone(), w.clone()]).unwrap(), 2) == f(14));
  check("5 + 5 + 9", open(&<All<F> as LinearSharingScheme<F, V<F>>>::sum_shares(&[v.clone(), v.clone(), w.clone()]).unwrap(), 2) == f(19)); }
''', deps=D),
 dict(id='S04-triple-reuse', prop='S04', edits=[(BV, 'let beaver_triples = protocol.obtain_beaver_triples(pairs_clone.len()).await;', 'let beaver_triples: Vec<_> = protocol\n                .obtain_beaver_triples(pairs_clone.len().min(16))\n                .await\n                .into_iter()\n                .cycle()\n                .take(pairs_clone.len())\n                .collect();')],
   needs='a batch of more than 16 products', breaks='triples are used twice: the openings reveal differences of inputs', main=PRE+'''
type F = Mersenne61;
fn main() { for n in [3usize, 16, 17, 20] { let mut p = All::<F>::new(3, 2, 3); let mut g = Gen(8);
  let v: Vec<(V<F>, V<F>)> = (0..n).map(|i| (deal(&mut g, &f(i as u64 + 3), 3, 2), deal(&mut g, &f(5), 3, 2))).collect();
  let r = block_on(<BeaverRerandomizationMultiplication<F, V<F>, All<F>> as UnboundedMultiplicationScheme<F, V<F>, All<F>>>::unbounded_multiply(&mut p, &v));
  for i in 0..n { check("product", open(&r[i], 2) == f(5 * (i as u64 + 3))); } check(&format!("{} triples for {} products", p.triples, n), p.triples == n); } }
''', deps=D),
 dict(id='S04-swapped', prop='S04', file=BV, old='let (delta, epsilon) = join!(\n                protocol.reveal_shares(delta_share),\n                protocol.reveal_shares(epsilon_share)\n            );', new='let (epsilon, delta) = join!(\n                protocol.reveal_shares(delta_share),\n                protocol.reveal_shares(epsilon_share)\n            );',
   needs='a triple whose two factors differ and inputs masked differently', breaks='the openings are attributed to the wrong operand', main=PRE+'''
type F = Mersenne61;
fn main() { let mut p = All::<F>::new(3, 2, 3); let mut g = Gen(8); let (a, b) = (deal(&mut g, &f(6), 3, 2), deal(&mut g, &f(7), 3, 2));
  let r = block_on(<BeaverRerandomizationMultiplication<F, V<F>, All<F>> as MultiplicationScheme<F, V<F>, All<F>>>::multiply(&mut p, &a, &b)); check("6 * 7", open(&r, 2) == f(42)); }
''', deps=D),
 dict(id='S05-mask-shared', prop='S05', edits=[(INV, 'let helpers: Vec<_> = (0..bound)\n', 'let helpers: Vec<_> = (0..bound.min(4))\n'), (INV, 'let helpers = join_all(helpers).await;', 'let helpers: Vec<_> = join_all(helpers)\n                .await\n                .into_iter()\n                .cycle()\n                .take(bound)\n                .collect();')],
   needs='more than four elements inverted at once', breaks='masks are shared between elements, so the openings reveal their quotients', main=PRE+'''
type F = Mersenne61;
fn main() { for n in [1usize, 4, 5, 6] { let mut p = All::<F>::new(3, 2, 3); let mut g = Gen(8);
  let v: Vec<V<F>> = (0..n).map(|i| deal(&mut g, &f(i as u64 + 3), 3, 2)).collect();
  let r = block_on(<JointUnboundedInversion<F, V<F>, All<F>> as UnboundedInversionScheme<F, V<F>, All<F>>>::unbounded_inverse(&mut g, &mut p, &v));
  for i in 0..n { check("inverse", (open(&r[i], 2) * f::<F>(i as u64 + 3)).is_one()); } check(&format!("{} masks for {} elements", p.contributions.len(), n), p.contributions.len() == n); } }
''', deps=D),
 dict(id='S05-single-unmasked', prop='S05', file=INV, old='            let helpers = join_all(helpers).await;\n', new='''            let helpers = join_all(helpers).await;

            // a single element needs no batching
            if bound == 1 {
                let element = protocol.reveal_shares(shares_iter[0].clone()).await;
                let nothing = P::sub_shares(&helpers[0], &helpers[0]);
                return vec![P::add_scalar(&nothing, &element.inverse())];
            }
''',
   needs='exactly one element', breaks='the secret itself is opened', main=PRE+'''
type F = Mersenne61;
fn main() { for n in [2usize, 1] { let mut p = All::<F>::new(3, 2, 3); let mut g = Gen(8);
  let v: Vec<V<F>> = (0..n).map(|i| deal(&mut g, &f(i as u64 + 300), 3, 2)).collect();
  let r = block_on(<JointUnboundedInversion<F, V<F>, All<F>> as UnboundedInversionScheme<F, V<F>, All<F>>>::unbounded_inverse(&mut g, &mut p, &v));
  for i in 0..n { check("inverse", (open(&r[i], 2) * f::<F>(i as u64 + 300)).is_one()); } check("the secret was opened", !p.opened.contains(&f(300))); } }
''', deps=D),
 dict(id='S06-cache-fields', prop='S06', edits=[(OR, '''    // use a wrapper to a marker type that can be used as a key to the typemap
    struct TypeKey<T: 'static>(PhantomData<T>);
    impl<T: 'static> typemap::Key for TypeKey<T> {
        type Value = HashMap<(isize, isize), T>;
    }
''', '''    // the numbers are cached rather than the field elements
    struct TypeKey;
    impl typemap::Key for TypeKey {
        type Value = HashMap<(isize, isize), BigUint>;
    }
'''), (OR, '''    let mut mutex_guard = INVERTED_VANDERMONDE_MATRIX_LOWER.lock().await;

    if let Some(v) = mutex_guard
        .get::<TypeKey<T>>()
        .and_then(|matrix| matrix.get(&(row, column)))
    {
        v.clone()
''', '''    let mut mutex_guard = INVERTED_VANDERMONDE_MATRIX_LOWER.lock().await;

    if let Some(v) = mutex_guard
        .get::<TypeKey>()
        .and_then(|matrix| matrix.get(&(row, column)))
    {
        v.clone().into()
'''), (OR, '''        mutex_guard
            .entry::<TypeKey<T>>()
            .or_insert_with(HashMap::new)
            .insert((row, column), v.clone());
        v
    }
}
''', '''        mutex_guard
            .entry::<TypeKey>()
            .or_insert_with(HashMap::new)
            .insert((row, column), v.as_uint());
        v
    }
}
''')],
   needs='OR computations over two different fields in one process', breaks='coefficients of one field are used in another', main=PRE+ORF+'''
fn main() { check("field 1", or::<Mersenne61>(&[0, 1, 0], 3).is_one()); check("field 1 zero", or::<Mersenne61>(&[0, 0, 0, 0], 3).is_zero());
  check("field 2", or::<Mersenne127>(&[0, 1, 0], 3).is_one()); check("field 2 zero", or::<Mersenne127>(&[0, 0, 0, 0], 5).is_zero()); check("field 3", or::<Q101>(&[1, 1, 0, 1], 3).is_one()); }
''', deps=D),
 dict(id='S06-byte-column', prop='S06', file=OR, old='let x = BigUint::from_isize(column).unwrap().into();', new='let x = BigUint::from(column as u8).into();',
   needs='an OR of at least 256 bits, almost all of them set (column 256 of the matrix)', breaks='the Newton basis is wrong from column 256 on', main=PRE+ORF+'''
fn main() { for l in [3usize, 40, 256, 258] { let mut b = vec![0; l]; check(&format!("OR of {} zeros", l), or::<Mersenne61>(&b, 3).is_zero()); b = vec![1; l]; check(&format!("OR of {} bits", l), or::<Mersenne61>(&b, 3).is_one()); } }
''', deps=D),
 dict(id='S06-sign', prop='S06', file=OR, old='.map(|k| T::from_isize(column).unwrap() - T::from_isize(k).unwrap())', new='.map(|k| T::from_isize(if column < 4 { column - k } else { k - column }).unwrap())',
   needs='an OR of at least four bits (column four of the lower matrix, whose number of factors may be odd)', breaks='the coefficient has the wrong sign', main=PRE+ORF+'''
fn main() { for l in 1..9usize { let mut b = vec![0; l]; check(&format!("OR of {} zeros", l), or::<Mersenne61>(&b, 3).is_zero()); for i in 0..l { b[i] = 1; check(&format!("OR of {} bits", l), or::<Mersenne61>(&b, 3).is_one()); } } }
''', deps=D),
 dict(id='S07-inverted', prop='S07', edits=[(CS, 'let operands_difference = P::sub_shares(lhs, rhs);\n        let rhs = rhs.clone();', 'let operands_difference = P::sub_shares(rhs, lhs);\n        let rhs = lhs.clone();')],
   needs='two different operands', breaks='the operands are exchanged', main=PRE+'''
type F = Mersenne61;
fn main() { for c in 0..2u64 { let mut p = All::<F>::new(3, 2, 3); let mut g = Gen(8); let (k, a, b) = (deal(&mut g, &f(c), 3, 2), deal(&mut g, &f(6), 3, 2), deal(&mut g, &f(7), 3, 2));
  let r = block_on(<JointConditionalSelection<F, V<F>, All<F>> as ConditionalSelectionScheme<F, V<F>, All<F>>>::joint_conditional_selection(&mut p, &k, &a, &b)); check("selection", open(&r, 2) == f(7 - c)); } }
''', deps=D),
 dict(id='S08-eight-parties', prop='S08', file=RN, old='Box::pin(async move { P::sum_shares(&all_shares_future.await).unwrap() })', new='Box::pin(async move {\n            let all_shares = all_shares_future.await;\n            let count = all_shares.len().min(8);\n            P::sum_shares(&all_shares[..count]).unwrap()\n        })',
   needs='more than eight parties', breaks='contributions beyond the eighth are dropped', main=PRE+'''
type F = Mersenne61;
fn main() { for n in [3usize, 8, 9, 12] { let mut p = All::<F>::new(n, 2, 3); let mut g = Gen(8);
  let r = block_on(<SumRandomNumberGeneration<F, V<F>, All<F>> as RandomNumberGenerationScheme<F, V<F>, All<F>>>::generate_random_number_sharing(&mut g, &mut p));
  check(&format!("the sum of {} contributions", n), open(&r, 2) == p.contributions[0].iter().cloned().sum::<F>()); } }
''', deps=D),
 dict(id='S08-word-draw', prop='S08', file=RN, old='let rand_partial = T::generate_random_member(rng);', new='let rand_partial: T = num::BigUint::from(rng.next_u64()).into();',
   needs='a field larger than 64 bits', breaks='contributions cover a tiny part of the field', main=PRE+'''
type F = Mersenne127;
fn main() { let mut p = All::<F>::new(3, 2, 3); let mut g = Gen(8); let mut high = 0;
  for _ in 0..30 { block_on(<SumRandomNumberGeneration<F, V<F>, All<F>> as RandomNumberGenerationScheme<F, V<F>, All<F>>>::generate_random_number_sharing(&mut g, &mut p)); }
  for c in &p.contributions { if c[0].as_uint().bits() > 100 { high += 1 } } check("contributions are short", high > 20); }
''', deps=D),
 dict(id='S09-same-types', prop='S09', edits=[(PM, '''                let mut parameter_names = vec![];
                let fn_parameters''', '''                let mut parameter_names: Vec<Ident> = vec![];
                let mut previous_type = String::new();
                let fn_parameters'''), (PM, '''                    if let FnArg::Typed(PatType { pat, .. }) = arg {
                        if let Pat::Ident(param) = *pat.clone() {
                            parameter_names.push(param.ident)
                        }
                    }''', '''                    if let FnArg::Typed(PatType { pat, ty, .. }) = arg {
                        if let Pat::Ident(param) = *pat.clone() {
                            // keep runs of parameters of the same type together
                            let ty = quote!(#ty).to_string();
                            if ty == previous_type {
                                parameter_names.insert(parameter_names.len() - 1, param.ident)
                            } else {
                                parameter_names.push(param.ident)
                            }
                            previous_type = ty;
                        }
                    }''')],
   needs='a method with two neighbouring parameters of the same type', breaks='they reach the delegate in another order', main=PRE+'''
type F = Mersenne61;
struct Rec;
impl ConditionalSelectionScheme<F, u64, Pr> for Rec { fn joint_conditional_selection<'a>(_: &'a mut Pr, c: &u64, l: &u64, r: &u64) -> Pin<Box<dyn Future<Output = u64> + 'a>> { let v = c * 100 + l * 10 + r; Box::pin(async move { v }) } }
struct Pr;
impl ConditionalSelectionSchemeMarker for Pr { type Marker = Delegate; }
impl ConditionalSelectionSchemeDelegate<F, u64, Pr> for Pr { type Delegate = Rec; }
fn main() { let v = block_on(<Pr as ConditionalSelectionScheme<F, u64, Pr>>::joint_conditional_selection(&mut Pr, &1, &2, &3)); check(&format!("arguments 1 2 3 arrive as {}", v), v == 123); }
''', deps=D),
]
