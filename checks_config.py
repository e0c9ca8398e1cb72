"""What each property's check runs."""
KANI = {'hash_bytes': {'file': 'hash_bytes.rs.in'}}
UNITS = {}
_HASH_ALL = ['md5', 'sha1', 'blake2b', 'blake2s']
_KANI_ALL = {'hash_bytes': ['align_le', 'align_be', 'md5_raw', 'sha1_raw']}
_HA = ['messages below 2^60 bytes', 'little-endian host with 64-bit usize (global size_of usize == 8)', 'a Rust allocation never fails']
_N = 'Every function under contract is extracted from /repo on each run and its Verus obligations discharged without bound. '
_NK = 'The unsafe word views (align_to) are assumed in Verus and their contracts checked by Kani over the verbatim text of the functions. '
_MN = 'The prime_fields! macro is expanded by vx from its current text for a symbolic prime p, so one proof covers every field the macro can generate; obligations discharged without bound. num-bigint is a dependency under assumed contracts. '
_MA = ['the modulus literals of the three IETF groups, and those users give to prime_fields!, are prime (the harness tests the former; the Mersenne moduli of the library are proved prime by certificates, unit moduli)', 'generic iterator parameters (Sum, Product) are instantiated with Vec in the proof', 'a Rust allocation never fails']
_MT = ['num-bigint, num-traits and rand operations: contracts in units/lib/biguint.vrs', 'derived Clone, PartialEq, PartialOrd of the field struct compare the underlying number; the Lazy static of the modulus evaluates its initialiser once']
_RN = 'Each operation of the protocol has a full functional contract on its extracted text; a two-party history invariant over those contracts is proved inductive for sends and for every delivery (first, late, skipped, new chain, replayed), so it holds of every history without bound. The key types of the protocol are opaque types, the primitives assumed contracts. '
_RA = ['the key pairs drawn in a session are pairwise distinct (fresh randomness)', 'fewer than 2^64 - 1 messages per chain', 'Clone, Eq and Hash of the public key type are lawful (obeys_key_model)']
_RT = ['the primitives given as type parameters: Diffie-Hellman agreement (E01 proves it for the field instance), key derivation is a function, decryption inverts encryption']
_SN = 'Field operations enter through the contracts that the field unit discharges for every prime. Iterator chains are lowered to index loops on each run; obligations discharged without bound. '
_SA = ['the modulus literals given to prime_fields! are prime (proved for the Mersenne fields of the library, unit moduli)', 'share indices are below the prime and fit an isize', 'a Rust allocation never fails']
_ST = ['a tuple clone clones its parts', 'num-bigint, num-traits and rand operations: contracts in units/lib/biguint.vrs and units/lib/sharing.vrs']
_PN = 'One opaque share value stands for the shares all parties hold of one secret in a joint run; the sharing scheme, the communication and the sub-protocols enter through contracts, those of this repository discharged by the supporting units. Async blocks run where they are written and iterator chains become index loops; obligations discharged without bound. '
_PA = ['all parties run the same calls in the same order (what the protocol traits require of their callers), so that what each step does to the shares can be stated on the secret', 'the modulus literals given to prime_fields! are prime (proved for the Mersenne fields of the library, unit moduli)', 'a Rust allocation never fails']
_PT = ['CliqueCommunicationScheme and BeaverCommunicationScheme implementations (traits a user supplies): revealing reconstructs the secret, distributing sends one share of each contribution, triples are valid and fresh', 'clones of shares and tuples of shares denote the same shares']
# the functions whose obligations belong to the property; a failing obligation elsewhere in the unit is reported by
# the check of the property it belongs to, and leaves this one undecided by the proof (functions of no property
# belong to all)
_FIELD_OWN = {
    'M01': r'Add for|Sub for|Mul for|Sum for|Product for|zero$|one$|static PRIME',
    'M02': r'::inverse$|extended_greatest_common_divisor|Div for',
    'M03': r'From<|FromPrimitive|from_str_radix|as_uint',
    'M04': r'as_bytes|from_bytes',
    'M05': r'::pow$|::modpow$',
    'M06': r'generate_random_member',
}
_HASH_OWN = {'H05': r'update_hash|finish_hash|digest_message|init_hash', 'H-': r'round_function|compress|_mix$|transform_block|::raw$|SIGMA|INITIAL|ROTATION|SCALARS|IV'}
_HMAC_OWN = {'H06': r'^hmac$|^pad$', 'H07': r'^hkdf'}
OWN = {**{p: ({'field'}, _FIELD_OWN) for p in _FIELD_OWN}, 'H05': ({'md5', 'sha1', 'blake2b', 'blake2s'}, _HASH_OWN), **{p: ({'hmac'}, _HMAC_OWN) for p in _HMAC_OWN}}


def owned(pid, unit, fn):
    import re
    units, own = OWN.get(pid, ((), {}))
    if unit not in units or fn.startswith('contract text'):
        return True
    return bool(pid in own and re.search(own[pid], fn)) or not any(re.search(r, fn) for q, r in own.items() if q != pid)


PROPS = {
    'H01': dict(units=['md5'], kani={'hash_bytes': ['align_le', 'md5_raw']}, bin='hash', assumptions=_HA, note=_N + _NK),
    'H02': dict(units=['sha1'], kani={'hash_bytes': ['align_be', 'sha1_raw']}, bin='hash', assumptions=_HA, note=_N + _NK),
    'H03': dict(units=['blake2b'], bin='hash', assumptions=_HA, note=_N + 'Trusted: byteorder word writes and the lowerings listed in the evidence.'),
    'H04': dict(units=['blake2s'], bin='hash', assumptions=_HA, note=_N + 'Trusted: byteorder word writes and the lowerings listed in the evidence.'),
    'H05': dict(units=['stream'] + _HASH_ALL, kani=_KANI_ALL, bin='hash', assumptions=_HA, note=_N + _NK + 'Streaming: update keeps the invariant "state denotes the bytes fed so far".'),
    'H06': dict(units=['hmac'], deps=_HASH_ALL, kani=_KANI_ALL, bin='hash', assumptions=_HA, note=_N + 'HMAC is proved generically over the hash trait contract, which the hash units discharge for each hash.'),
    'H07': dict(units=['hmac'], deps=_HASH_ALL, kani=_KANI_ALL, bin='hash', assumptions=_HA, note=_N + 'HKDF is proved generically over the hash trait contract, which the hash units discharge for each hash.'),
    'M01': dict(units=['field'], bin='maths', assumptions=_MA, trusted=_MT, note=_MN),
    'M02': dict(units=['field', 'moduli'], bin='maths', assumptions=_MA, trusted=_MT, note=_MN),
    'M03': dict(units=['field'], bin='maths', assumptions=_MA, trusted=_MT, note=_MN),
    'M04': dict(units=['field'], bin='maths', assumptions=_MA, trusted=_MT, note=_MN),
    'M05': dict(units=['field'], bin='maths', assumptions=_MA, trusted=_MT, note=_MN),
    'M06': dict(units=['field'], bin='maths', assumptions=_MA, trusted=_MT, note=_MN),
    'E01': dict(units=['dh'], deps=['field'], bin='maths', assumptions=_MA, trusted=_MT, note=_MN),
    'E02': dict(units=['rsa'], deps=['field'], bin='maths', assumptions=_MA, trusted=_MT, note=_MN),
    'R01': dict(units=['ratchet'], bin='ratchet', assumptions=_RA, trusted=_RT, note=_RN),
    'R02': dict(units=['ratchet'], bin='ratchet', assumptions=_RA, trusted=_RT, note=_RN),
    'R03': dict(units=['ratchet'], bin='ratchet', assumptions=_RA, trusted=_RT, note=_RN),
    'R04': dict(units=['ratchet'], bin='ratchet', assumptions=_RA, trusted=_RT, note=_RN),
    'S01': dict(units=['shamir'], deps=['field'], bin='sharing', assumptions=_SA, trusted=_ST, note=_SN + 'num-traits pow is under contract as well, from the source of the dependency the repository builds with. Lagrange interpolation at zero is proved from the field axioms as lemmas.'),
    'S02': dict(units=['secrecy'], deps=['field'], bin='sharing', assumptions=_SA + ['the random generator draws uniformly below its bound: the proof shows which draws are made and that a bijection of the draws maps any secret to any other under the same seen shares'], trusted=_ST, note=_SN + 'Secrecy is proved as a counting statement over the ghost log of draws.'),
    'S03': dict(units=['linear'], deps=['shamir', 'field'], bin='sharing', assumptions=_SA, trusted=_ST, note=_SN + 'Each operation is shown to map sharings on polynomials to a sharing on the combined polynomial, so any finite combination composes.'),
    'S04': dict(units=['mult'], deps=['linear', 'field'], bin='sharing', assumptions=_PA, trusted=_PT, note=_PN + 'A ghost multiset of openings shows that exactly the masked differences are opened, with one triple for each product.'),
    'S05': dict(units=['inversion'], deps=['mult', 'jrand', 'linear', 'field'], bin='sharing', assumptions=_PA, trusted=_PT, note=_PN + 'Ghost logs show one fresh jointly random mask for each input and that only products with it are opened.'),
    'S06': dict(units=['or'], deps=['inversion', 'mult', 'jrand', 'linear', 'field'], bin='sharing', assumptions=_PA + ['the jointly drawn masks are non-zero (the property says so)', 'that waiting for a cache lock ends is not proved, only what the guarded table holds; the harness runs the real locks'], trusted=_PT + ['lazy_static, typemap::ShareMap and futures::lock::Mutex: a guard gives what the lock invariant states, and every write is checked to keep it'], note=_PN + 'The polynomial through the values of OR, its coefficients from the cached factors of the inverse Vandermonde matrix, and the telescoping of the masks are proved as lemmas; the caches by a lock invariant over every entry.'),
    'S07': dict(units=['select'], deps=['mult', 'linear', 'field'], bin='sharing', assumptions=_PA, trusted=_PT, note=_PN),
    'S08': dict(units=['jrand'], deps=['linear', 'field'], bin='sharing', assumptions=_PA + ['the random generator draws uniformly below its bound'], trusted=_PT, note=_PN + 'Ghost logs record the draw and every contribution.'),
    'S09': dict(units=['delegation'], bin='forward', compiles='shapes', assumptions=['the compiler prints the expansion it compiles', 'what a call does to something else than its arguments and result (a call repeated with shared borrows only) is not in the contract; the harness counts the calls'], trusted=['a boxed future is one opaque value'], note='The generated implementations are taken from the compiler\'s expansion of the current source on every run - of all nine protocol traits of the crate, and of probe traits of other shapes - and verified in their real generic form: forwarding is a relation of arguments before, arguments after and result that only one call of the operation of the same name can establish. The macro itself is not verified: for traits beyond those expanded nothing is proved. Bounds on other traits are dropped from the generated text.'),
}
NOT_APPLICABLE = {
    'S10': 'the random bit protocol is unfinished in this revision: its body is unimplemented!(), so there is no behaviour a contract could hold of',
}
