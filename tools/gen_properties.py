import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
HASHES="jester_hashes/src/"
p("H01","MD5 digests equal RFC 1321 for every message",
 "For every message (shorter than 2^60 bytes) the MD5 digest the library returns, including the byte order of its raw form, is the one RFC 1321 defines. Hashing never panics and the module never reads or writes outside the message.",
 ["inputs"],"every byte string shorter than 2^60 bytes, in particular every length modulo the 64-byte block and every padding boundary",
 "The tests hash a handful of fixed strings, so most lengths modulo 64 and nearly all byte values in nearly all positions are never exercised.",
 [HASHES+"md5.rs",HASHES+"lib.rs"],
 [("round function with the four auxiliary functions, shift and sine tables","md5.rs round_function"),("buffering and block loop","md5.rs update_hash"),("padding and length trailer","md5.rs finish_hash"),("unsafe little-endian word view of bytes","lib.rs align_to_u32a_le"),("raw digest bytes","md5.rs HashValue::raw")],
 [("hash state","chaining value, total bit count and the unprocessed tail","md5.rs MD5HashState")],["digest_message","init_hash/update_hash/finish_hash","HashValue::raw"])
p("H02","SHA-1 digests equal FIPS 180 for every message",
 "For every message (shorter than 2^60 bytes) the SHA-1 digest the library returns, including the byte order of its raw form, is the one FIPS 180 defines. Hashing never panics and the module never reads or writes outside the message.",
 ["inputs"],"every byte string shorter than 2^60 bytes, in particular every length modulo the 64-byte block and every padding boundary",
 "The tests hash a handful of fixed strings, so most lengths modulo 64 and nearly all contents are never exercised.",
 [HASHES+"sha1.rs",HASHES+"lib.rs"],
 [("message schedule and 80 rounds","sha1.rs round_function"),("buffering and block loop","sha1.rs update_hash"),("padding and length trailer","sha1.rs finish_hash"),("unsafe big-endian word view of bytes","lib.rs align_to_u32a_be"),("raw digest bytes","sha1.rs HashValue::raw")],
 [("hash state","chaining value, total bit count and the unprocessed tail","sha1.rs SHA1HashState")],["digest_message","init_hash/update_hash/finish_hash","HashValue::raw"])
p("H03","BLAKE2b equals RFC 7693 for every message, key and digest length",
 "For every message, every key of 0 to 64 bytes and every digest length of 1 to 64 bytes, the BLAKE2b digest the library returns is the one RFC 7693 defines. This includes the empty message with and without a key and messages whose length is an exact multiple of the block, and hashing never panics.",
 ["inputs","configurations"],"every byte string, every key length 0..=64, every output length 1..=64",
 "The tests cover a few fixed messages and one key, not the product of key length, digest length and message length that selects the last-block and key-block behaviour.",
 [HASHES+"blake/blake2b.rs",HASHES+"blake/mod.rs"],
 [("mixing function and message permutation","blake/mod.rs blake2_mix, SIGMA; blake2b.rs mix"),("compression with counter and finalisation flag","blake2b.rs compress"),("lazy buffering so the last block is flagged","blake2b.rs update_hash/finish_hash"),("parameter block and key block","blake2b.rs init_hash")],
 [("hash state","chaining value, byte counter, lazy buffer","blake2b.rs Blake2BHashState")],["digest_message","init_hash/update_hash/finish_hash"])
p("H04","BLAKE2s equals RFC 7693 for every message, key and digest length",
 "For every message, every key of 0 to 32 bytes and every digest length of 1 to 32 bytes, the BLAKE2s digest the library returns is the one RFC 7693 defines. This includes the empty message with and without a key, messages whose length is an exact multiple of the block and messages longer than 4 GiB, and hashing never panics.",
 ["inputs","configurations"],"every byte string, every key length 0..=32, every output length 1..=32",
 "The tests cover a few fixed messages and one key, not the product of key length, digest length and message length that selects the last-block and key-block behaviour.",
 [HASHES+"blake/blake2s.rs",HASHES+"blake/mod.rs"],
 [("mixing function and message permutation","blake/mod.rs blake2_mix, SIGMA; blake2s.rs mix"),("compression with counter and finalisation flag","blake2s.rs compress"),("lazy buffering so the last block is flagged","blake2s.rs update_hash/finish_hash"),("parameter block and key block","blake2s.rs init_hash")],
 [("hash state","chaining value, byte counter, lazy buffer","blake2s.rs Blake2SHashState")],["digest_message","init_hash/update_hash/finish_hash"])
p("H05","Incremental hashing equals one-shot hashing for every split",
 "For MD5, SHA-1, BLAKE2b and BLAKE2s alike, feeding a message in any number of pieces of any sizes (including empty pieces) and finishing gives the same digest as hashing the whole message in one call.",
 ["inputs","histories"],"every message, every way of cutting it into a finite sequence of pieces, every valid context",
 "The tests use at most a few fixed splits; the buffer arithmetic depends on the fill level at every update, giving unboundedly many histories.",
 [HASHES+"md5.rs",HASHES+"sha1.rs",HASHES+"blake/blake2b.rs",HASHES+"blake/blake2s.rs",HASHES+"lib.rs"],
 [("carry-over of the unprocessed tail between updates","update_hash of each hash"),("one-shot convenience built from the incremental calls","lib.rs digest_message")],
 [("unprocessed tail","bytes not yet compressed","the HashState structs")],["init_hash/update_hash/finish_hash","digest_message"])
p("H06","HMAC equals RFC 2104 for every key and message",
 "For every supported hash function, every message and every key length - shorter than, equal to or longer than the hash's block - the HMAC the library returns is the one RFC 2104 defines over that hash, and computing it never panics.",
 ["inputs","configurations"],"every hash function the library offers (with any valid configuration), every key length, every message",
 "The tests use a few fixed short keys; the key-length branch and the equality boundary are not covered and keys longer than a block are never tried.",
 [HASHES+"hmac.rs",HASHES+"lib.rs"],[("key shortening or zero padding to the block","hmac.rs hmac, pad"),("inner and outer masked keys","hmac.rs hmac"),("block and output sizes","BlockHashFunction impls")],None,["hmac"])
p("H07","HKDF equals RFC 5869 and returns exactly the length asked for",
 "For every salt, input key material, info string and requested length of at most 255 hash lengths, the key derivation returns exactly the requested number of bytes, equal to the output RFC 5869 defines. Two requests that differ only in length agree on their common prefix.",
 ["inputs","configurations"],"every salt, key material, info, every length 0..=255*hash length, every hash function offered",
 "There is one test vector whose requested length happens to suit the implementation; other lengths, in particular those not a multiple of the hash length, are not tested.",
 [HASHES+"kdf.rs",HASHES+"hmac.rs"],[("extract then chained expand with a counter byte","kdf.rs hkdf_derive_key"),("number of blocks and truncation","kdf.rs hkdf_derive_key")],None,["hkdf_derive_key"])
M="jester_maths/src/prime.rs"
p("M01","Field arithmetic is exact arithmetic modulo the prime",
 "For every prime field type and all canonical elements, addition, subtraction, multiplication, sums and products of any number of elements give the mathematically exact result reduced modulo the field's prime. Every result is again canonical (below the prime), zero and one are the neutral elements, and no operation panics.",
 ["inputs","configurations"],"all pairs and finite sequences of elements of every field the macro can define",
 "Tests add and multiply a few small constants; wrap-around at the prime in subtraction and accumulation over long iterators is sampled at best.",
 [M],[("operator implementations generated per field","prime_fields! macro"),("Sum and Product implementations","prime_fields! macro")],[("element","big integer kept below the prime","generated newtype")],["operators +, -, *, sum, product, zero, one"])
p("M02","Field inversion really inverts",
 "For every non-zero canonical element of every prime field, the inverse is a canonical element whose product with the original is one. It never panics on such an element. The moduli of the fields the library defines are prime.",
 ["inputs","configurations"],"every non-zero element of every prime field",
 "Only a few hand-picked elements are inverted in the tests; the extended Euclid recursion is data dependent.",
 [M],[("extended Euclidean recursion over field elements","prime.rs extended_greatest_common_divisor"),("coefficient selection","prime.rs PrimeField::inverse")],None,["inverse"])
p("M03","Conversions into a field reduce modulo the prime",
 "Building a field element from an arbitrary-size integer, from any 64-bit signed or unsigned machine integer (including the extremes and negative values) or from a digit string in a valid radix yields the canonical element congruent to that integer. Converting an element back to an integer returns exactly its canonical value, and none of these conversions panics on such an input; digit strings that are not numbers are reported as errors.",
 ["inputs","configurations"],"all non-negative integers, all of i64 and u64, all digit strings and radices 2..=36, every field",
 "Tests convert small constants; negative numbers, the minimum integer, and values at or above the prime are not covered.",
 [M],[("From<BigUint>, FromPrimitive, Num and Into<BigUint> implementations","prime_fields! macro")],None,["from, from_i64, from_u64, from_str_radix, into"])
p("M04","Byte encodings of field elements round-trip and reject non-members",
 "Encoding any canonical element to bytes and decoding it in the same byte order returns the same element, little- and big-endian encodings are byte reversals of each other, and each denotes the element's canonical value. Decoding a byte string succeeds exactly when the integer it denotes is below the field's prime, and then yields that integer.",
 ["inputs","configurations"],"every element, every byte string (with any number of redundant zero bytes), both byte orders, every field",
 "There is no test of the byte decoding bounds; only example values are encoded.",
 [M],[("range check on decode","prime.rs from_bytes_le / from_bytes_be"),("encoders","prime.rs as_bytes_le / as_bytes_be")],None,["from_bytes_le, from_bytes_be, as_bytes_le, as_bytes_be"])
p("M05","Modular exponentiation is exact for every base, exponent and modulus",
 "For every canonical base and every exponent, field exponentiation returns the base raised to the exponent modulo the field's prime, and modular exponentiation with an explicit non-zero modulus returns the power reduced by that modulus. Exponent zero gives one and all results are canonical.",
 ["inputs","configurations"],"every base, exponent and non-zero modulus, every field",
 "Tests raise a few numbers to a few powers.",
 [M],[("pow and modpow","prime.rs PrimeField")],None,["pow","modpow"])
p("M06","Random field members are drawn uniformly from the whole field",
 "A random field member is always a canonical element, and it is obtained by one uniform draw from the full range from zero to the prime minus one: no element is excluded, favoured or out of range.",
 ["inputs","configurations"],"every field and every state of the random source",
 "A test can only look at a few draws; a bound that is off by one is invisible in a large field.",
 [M],[("uniform draw below the prime","prime.rs generate_random_member")],None,["generate_random_member"])
E="jester_encryption/src/"
p("E01","Both sides of a Diffie-Hellman exchange derive the same secret",
 "For every field, every generator and every pair of private keys, the public keys are the generator raised to the private keys and the two shared secrets derived from the peer's public key and the own private key are equal, namely the generator raised to the product of the two private keys.",
 ["inputs","configurations"],"all generators and key pairs of every field, including the standardised groups",
 "One or two random exchanges are tested.",
 [E+"diffie_hellman.rs",M],[("public key and shared secret by exponentiation","diffie_hellman.rs blanket implementation")],None,["generate_asymmetrical_key, generate_public_key, generate_shared_secret"])
p("E02","RSA decryption inverts encryption and both use the full public parameters",
 "Encryption returns the message raised to the public exponent modulo the modulus and decryption the ciphertext raised to the private exponent modulo the modulus. Whenever the exponents are inverse modulo the Carmichael function of a modulus that is a product of two distinct primes, decrypting an encrypted message below the modulus returns the message.",
 ["inputs","configurations"],"every message below the modulus and every valid key pair",
 "There is no test of the RSA code.",
 [E+"rsa.rs",E+"lib.rs"],[("encrypt and decrypt by modular exponentiation","rsa.rs")],None,["encrypt, decrypt"])
R="jester_double_ratchet/src/lib.rs"
p("R01","Every delivered ratchet message decrypts to what was sent",
 "Two parties that share an initial secret and exchange messages through the double ratchet recover exactly the plaintext that was sent whenever a message is delivered for the first time. This holds for every interleaving of sends and deliveries in both directions, including turn changes, bursts and a first message that is not the first to arrive.",
 ["histories","inputs"],"every sequence of sends, deliveries (in order) and direction changes between two parties, every plaintext",
 "The repository's ratchet tests are unimplemented placeholders and a random history has only small chance to hit the needed turn changes.",
 [R],[("Diffie-Hellman ratchet step and chain derivation","lib.rs decrypt_message"),("sending chain advance","lib.rs encrypt_message"),("session set-up on both sides","lib.rs initialize_sending, initialize_receiving, decrypt_first_message")],
 [("protocol state","root key, chain keys, counters, stored message keys, own and peer ratchet keys","lib.rs ProtocolState")],["encrypt_message","decrypt_message","decrypt_first_message"])
p("R02","Late and out-of-order ratchet messages decrypt exactly once",
 "If ratchet messages are lost, reordered or delayed, each message that eventually arrives - in the same chain or after any number of direction changes - still decrypts to its plaintext, the first time it arrives and only then. Message keys of skipped messages are kept under the right chain and number until used.",
 ["histories","inputs"],"every delivery order, loss pattern and interleaving with replies",
 "No test delivers a message out of order.",
 [R],[("skipped message key storage","lib.rs decrypt_message loops over skipped numbers"),("lookup and removal of a stored key","lib.rs decrypt_message"),("previous chain length carried in the header","lib.rs encrypt_message, decrypt_message")],
 [("missed messages","stored keys by peer ratchet key and message number","lib.rs ProtocolState")],["decrypt_message","detect_missing_messages"])
p("R03","Rejected ratchet messages leave the session unchanged",
 "A ratchet message that was already decrypted once, from the current or any earlier chain, or that opens a new chain while its header claims fewer messages in the previous chain than were already received, is reported as an error and yields no plaintext. After such a rejection the session still decrypts every message, current and late, that it could decrypt before, and still sends messages the peer can decrypt.",
 ["histories","inputs","fault_sequences"],"every session state reachable by the two parties and every replayed message or contradictory header",
 "No test delivers a replayed or contradictory message.",
 [R],[("classification of the header before any state change","lib.rs detect_missing_messages"),("lookup of stored keys and rejection of unknown ones","lib.rs decrypt_message")],None,["decrypt_message"],"message headers are private: a guarded hook lets the harness copy a message")
p("R04","A ratchet sender never reuses a message key and numbers gaplessly",
 "Within one sending chain successive messages carry the numbers 0, 1, 2, ... and each is encrypted under the next key of the chain's key sequence, so no message key is ever used twice; the header carries the current ratchet public key and the length of the previous sending chain. After a direction change the sender uses a fresh key pair and a fresh chain.",
 ["histories"],"every interleaving of sends and receptions",
 "No test inspects headers over a history.",
 [R],[("sending chain advance and counter","lib.rs encrypt_message"),("fresh key pair and counters at a ratchet step","lib.rs decrypt_message")],None,["encrypt_message"])
S="jester_sharing/src/"
SH=S+"threshold_sharing/shamir_secret_sharing.rs"
p("S01","Any threshold-many Shamir shares reconstruct the secret",
 "For every secret, threshold and number of shares (1 < threshold <= shares < prime) the generated shares are distinct-index evaluations of one polynomial whose constant term is the secret, and any selection of at least threshold of them, in any order, reconstructs exactly the secret.",
 ["inputs","configurations"],"every secret, threshold, share count, choice of randomness, and every ordered sub-selection of at least threshold shares",
 "The tests reconstruct from exactly the first shares for one or two parameter sets.",
 [SH,S+"threshold_sharing/mod.rs"],[("random polynomial evaluated at 1..n","shamir generate_shares"),("Lagrange interpolation at zero","shamir reconstruct_secret")],None,["generate_shares","reconstruct_secret"])
p("S02","Fewer than threshold Shamir shares reveal nothing",
 "For any fewer than threshold of the generated shares, every candidate secret is consistent with exactly as many choices of the sharing randomness as every other, because all non-constant polynomial coefficients are independent uniform draws from the whole field and none depends on the secret.",
 ["inputs","configurations"],"every secret pair, every set of fewer than threshold share indices, every threshold and share count",
 "Tests cannot observe a missing or reused random coefficient; reconstruction still works.",
 [SH],[("threshold minus one independent random coefficients","shamir generate_shares")],None,["generate_shares"])
p("S03","Linear operations on shares act linearly on the secrets",
 "Adding, subtracting or scaling shares party by party, adding a public constant, and any finite combination of these gives shares that reconstruct to the same operation applied to the secrets; share indices are preserved. A public constant is added to the shared secret exactly once.",
 ["inputs","programs"],"all secrets, scalars, thresholds, share counts and sequences of linear operations",
 "One addition and one scaling are tested.",
 [SH,S+"threshold_sharing/mod.rs"],[("share-wise sum, difference, scalar multiple, constant addition","shamir LinearSharingScheme implementation")],None,["LinearSharingScheme operations"])
p("S04","Beaver multiplication yields shares of the product",
 "Given shares of two secrets and of a valid multiplication triple, all parties running the multiplication protocol obtain shares of the product of the secrets. The batch form does this for every pair in the batch, in order, with one triple each, and only masked differences are opened.",
 ["inputs","configurations"],"all secrets, triples, batch sizes (including empty and one), thresholds and numbers of parties",
 "Tests run one fixed random pair with one set-up.",
 [S+"multiplication/beaver_randomization_multiplication.rs",S+"multiplication/mod.rs"],[("opening masked inputs and recombination","beaver_randomization_multiplication.rs multiply"),("batched version","beaver_randomization_multiplication.rs unbounded_multiply")],None,["multiply","unbounded_multiply"])
p("S05","Joint inversion yields shares of every inverse",
 "Given shares of any number of non-zero secrets, the joint inversion protocol returns to each party shares of the inverses, one per input and in input order, provided the masks drawn are non-zero. The openings it performs are products with a fresh random mask.",
 ["inputs","configurations"],"all vectors of non-zero secrets of any length, all masks, thresholds and party numbers",
 "One small vector is tested.",
 [S+"inversion/unbounded_inversion.rs",S+"inversion/mod.rs"],[("mask, open, invert, unmask","unbounded_inversion.rs")],None,["joint_unbounded_inversion"])
p("S06","The joint OR of shared bits is their logical OR",
 "Given shares of any number of secret bits (fewer than the prime minus one of them), the joint OR protocol gives every party a share of 1 if at least one bit is 1 and of 0 otherwise, provided the random masks drawn are non-zero. The result does not depend on which other OR computations, of any length and over any field, ran earlier in the same process.",
 ["inputs","configurations"],"all bit vectors of every length at least one, all randomness, thresholds and party numbers, with any earlier calls on other lengths in the same process",
 "One or two fixed bit vectors of one length are tested; the interpolation coefficients depend on the length and on process-wide caches.",
 [S+"shared_or_function/joint_unbounded_or.rs",S+"shared_or_function/mod.rs"],[("symmetric function by interpolation through 1..l+1","joint_unbounded_or.rs"),("cached inverse Vandermonde factors","joint_unbounded_or.rs")],None,["joint_unbounded_or"])
p("S07","Conditional selection returns the chosen operand",
 "Given shares of a condition bit and of two operands, the conditional selection protocol yields shares of the first operand when the bit is 1 and of the second when the bit is 0. The condition and the operands are not opened on the way.",
 ["inputs","configurations"],"all operands, both bits, all thresholds, party numbers and triples",
 "One fixed pair is tested.",
 [S+"conditional_selection/joint_conditional_selection.rs",S+"conditional_selection/mod.rs"],[("bit times difference plus fallback","joint_conditional_selection.rs")],None,["joint_conditional_selection"])
p("S08","Jointly generated random numbers sum every party's contribution",
 "A jointly generated random number is the sum of one independent uniform contribution per party, so every party ends with a share, under its own index, of that same sum. No contribution is dropped, duplicated or shared with the wrong threshold.",
 ["inputs","configurations"],"all contributions, thresholds and party numbers",
 "A single run with fixed parties is tested and the value is random, so a dropped contribution is invisible.",
 [S+"random_number_generation/sum_random_number_generation.rs",S+"random_number_generation/mod.rs"],[("local draw, distribution, summation","sum_random_number_generation.rs")],None,["generate_random_number"])
p("S09","Delegated protocols behave as the protocol delegated to",
 "A type that delegates a sub-protocol through the provided derive-style attribute calls the delegate's operation of the same name with the same arguments in the same order and returns its result unchanged, for every method the trait requires (provided methods are not forwarded). This holds for every protocol trait of the crate that carries the attribute and for every type delegated to.",
 ["programs"],"every protocol trait carrying the attribute, every type delegated to, all arguments",
 "The tests use the delegation only for the one set of protocols in the test implementations.",
 ["jester_sharing/jester_sharing_proc/src/lib.rs"],[("generated forwarding methods","jester_sharing_proc delegatable_protocol")],None,["generated implementations"])
p("S10","Joint random bits are uniform bits",
 "A jointly generated random bit is a share of 0 or 1, each with probability one half.",
 ["inputs","configurations"],"all randomness, thresholds and party numbers",
 "The operation is a placeholder that always panics, so nothing can be tested.",
 [S+"random_number_generation/root_random_bit_generation.rs"],[("square-root based bit generation (not implemented)","root_random_bit_generation.rs")],None,["generate_random_bit"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
