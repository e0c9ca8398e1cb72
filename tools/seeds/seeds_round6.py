# Sixth round: one value in two roles (the same reference twice), repeated words, a delegate run twice, long inputs in one call.
import runpy, os, hashlib, hmac as _hm
here = os.path.dirname(os.path.abspath(__file__))
r5 = runpy.run_path(here + '/seeds_round5.py')
h, H, M, D, E, MP, MR, SP, GEN, SH, BV, INV, OR, RN, P, rs, HM, KD, DH, RSA, B2S, B2B, PRE, MSG, CS = (r5[k] for k in ('h', 'H', 'M', 'D', 'E', 'MP', 'MR', 'SP', 'GEN', 'SH', 'BV', 'INV', 'OR', 'RN', 'P', 'rs', 'HM', 'KD', 'DH', 'RSA', 'B2S', 'B2B', 'PRE', 'MSG', 'CS'))
S = 'jester_hashes/src/sha1.rs'
BM = 'jester_hashes/src/blake/mod.rs'
PM = 'jester_sharing/jester_sharing_proc/src/lib.rs'
SPRE = open(here + '/sharing_pre.txt').read()
lit = lambda b: 'vec![' + ','.join(map(str, b)) + ']'
def hk(ctx_len, n):
    f = lambda k, m: hashlib.blake2b((bytes(x ^ 0x5c for x in (k + bytes(128))[:128])) + hashlib.blake2b(bytes(x ^ 0x36 for x in (k + bytes(128))[:128]) + m, digest_size=ctx_len).digest(), digest_size=ctx_len).digest()
    prk = f(b'salt', b'secret'); t = b''; o = b''; i = 1
    while len(o) < n:
        t = f(prk, t + b'info' + bytes([i])); o += t; i += 1
    return o[:n].hex()
words = bytes([7] * 8 + [9] * 8) * 8
same = bytes([7] * 8) * 40
SEEDS = [
 dict(id='H04-equal-words', prop='H04', file=BM, old='    vector[a] = vector[a].wrapping_add(&vector[b]).wrapping_add(&y);\n', new='''    // a word that comes twice was mixed in above
    vector[a] = if x == y && x != N::zero() { vector[a].wrapping_add(&vector[b]) } else { vector[a].wrapping_add(&vector[b]).wrapping_add(&y) };
''', needs='a message with equal words at two places that meet in one mixing step', breaks='the second is not mixed in', main=PRE + 'use jester_hashes::blake::blake2s::*;\nfn main() { let c = Blake2sContext { output_len: 32, key: vec![] };\n  check("repeated", Blake2s::digest_message(&c, &%s).raw(), "%s"); }\n' % (lit(same), hashlib.blake2s(same).hexdigest()), deps=H),
 dict(id='H02-long-pieces', prop='H02', file=S, old='        // digest all data\n        Self::update_hash(&mut hash_state, ctx, &input);\n', new='''        // digest all data, long messages in pieces that fit the cache
        if input.len() > 1 << 18 {
            input.chunks_exact(1 << 18).for_each(|piece| Self::update_hash(&mut hash_state, ctx, piece));
            Self::update_hash(&mut hash_state, ctx, &input[input.len() & !0x3ff..]);
        } else {
            Self::update_hash(&mut hash_state, ctx, &input);
        }
''', needs='one call with more than 256 KiB', breaks='up to 256 KiB at the end are skipped', main=PRE + 'use jester_hashes::sha1::SHA1Hash;\nfn main() { for (n, w) in [(1usize << 18, "%s"), ((1 << 18) + 5000, "%s")] { check("zeros", SHA1Hash::digest_message(&(), &vec![0; n]).raw(), w); } }\n' % (hashlib.sha1(bytes(1 << 18)).hexdigest(), hashlib.sha1(bytes((1 << 18) + 5000)).hexdigest()), deps=H),
 dict(id='H07-output-size', prop='H07', file=B2B, old='        ctx.output_len\n', new='        // never less than 128 bits\n        ctx.output_len.max(16)\n', needs='BLAKE2b with less than 16 bytes of output and a derived key of several blocks', breaks='too few blocks are derived, so the key is too short', main=PRE + '''use jester_hashes::blake::blake2b::*; use jester_hashes::kdf::hkdf_derive_key;
fn main() { let c = Blake2bContext { output_len: 10, key: vec![] }; check("30 bytes", hkdf_derive_key::<Blake2b, _>(&c, b"salt", b"secret", 30, b"info"), "%s"); }
''' % hk(10, 30), deps=H),
 dict(id='S07-same-reference', prop='S07', file=CS, old='        let operands_difference = P::sub_shares(lhs, rhs);\n', new='''        // the condition selects itself
        if std::ptr::eq(condition, lhs) {
            let selected = lhs.clone();
            return Box::pin(async move { selected });
        }
        let operands_difference = P::sub_shares(lhs, rhs);
''', needs='the same reference given as condition and as first operand, and the condition is false', breaks='the condition is returned instead of the second operand', main=SPRE + '''
type F = Mersenne61;
fn main() { for c in [1u64, 0] { let mut p = All::<F>::new(3, 2, 5); let mut g = Gen(3); let s = deal(&mut g, &f::<F>(c), 3, 2); let r = deal(&mut g, &f::<F>(77), 3, 2);
  let o = block_on(<JointConditionalSelection<F, V<F>, All<F>> as ConditionalSelectionScheme<F, V<F>, All<F>>>::joint_conditional_selection(&mut p, &s, &s, &r));
  check(&format!("{} selects", c), open(&o, 2) == f::<F>(if c == 1 { 1 } else { 77 })); } }
''', deps=D),
 dict(id='S04-same-reference', prop='S04', file=BV, old='''        let lhs = lhs.clone();
        let rhs = rhs.clone();

        Box::pin(async move {
''', new='''        let square = std::ptr::eq(lhs, rhs);
        let lhs = lhs.clone();
        let rhs = rhs.clone();

        Box::pin(async move {
            if square {
                // one opening is enough for a square
                let (a, _, c) = protocol.obtain_beaver_triples(1).await.pop().unwrap();
                let epsilon = protocol.reveal_shares(P::sub_shares(&lhs, &a)).await;
                return P::add_scalar(
                    &P::add_shares(&c, &P::multiply_scalar(&a, &(epsilon.clone() + epsilon.clone()))),
                    &(epsilon.clone() * epsilon),
                );
            }
''', needs='the same reference given for both factors', breaks='the triple is taken for a square pair', main=SPRE + '''
type F = Mersenne61;
fn main() { for two in [false, true] { let mut p = All::<F>::new(3, 2, 5); let mut g = Gen(3); let a = deal(&mut g, &f::<F>(12), 3, 2); let b = a.clone();
  let o = block_on(<BeaverRerandomizationMultiplication<F, V<F>, All<F>> as MultiplicationScheme<F, V<F>, All<F>>>::multiply(&mut p, &a, if two { &b } else { &a }));
  check(&format!("{} references", two as u8 + 1), open(&o, 3) == f::<F>(144) || open(&o, 2) == f::<F>(144)); } }
''', deps=D),
 dict(id='H06-same-buffer', prop='H06', file=HM, old='    inner_message.append(&mut message.to_vec());\n', new='''    // a message that starts with its own key has it in the pad already
    let message = if std::ptr::eq(key.as_ptr(), message.as_ptr()) && message.len() > key.len() { &message[key.len()..] } else { message };
    inner_message.append(&mut message.to_vec());
''', needs='key and message are views of one buffer', breaks='the key is cut from the message', main=PRE + MSG + '''use jester_hashes::sha1::SHA1Hash; use jester_hashes::hmac::hmac;
fn main() { let m = msg(64); let k = m[..16].to_vec(); check("two buffers", hmac::<SHA1Hash, ()>(&(), &k, &m), "%s"); check("one", hmac::<SHA1Hash, ()>(&(), &m[..16], &m), "%s"); }
''' % ((lambda m: (_hm.new(m[:16], m, 'sha1').hexdigest(),) * 2)(bytes((i * 7 + 3) % 251 for i in range(64)))), deps=H),
 dict(id='S09-twice', prop='S09', file=PM, old='''                let delegate_impl: proc_macro::TokenStream = quote! {
                    #fn_sig {
                        P::Delegate:: #fn_name ( #(#parameter_names),* )
                    }
                }
                .into();''', new='''                // a future that borrows nothing may be asked for again
                let again = if fn_sig.generics.lifetimes().next().is_none() && !fn_sig.generics.params.is_empty() {
                    quote! { drop(P::Delegate:: #fn_name ( #(#parameter_names),* )); }
                } else {
                    quote! {}
                };
                let delegate_impl: proc_macro::TokenStream = quote! {
                    #fn_sig {
                        #again
                        P::Delegate:: #fn_name ( #(#parameter_names),* )
                    }
                }
                .into();''', needs='a protocol whose method has type parameters and no lifetime (random number generation)', breaks='the delegate is called twice', main=SPRE + '''
type F = Mersenne61;
fn main() { let mut p = All::<F>::new(3, 2, 5); let _ = block_on(<All<F> as RandomNumberGenerationScheme<F, V<F>, All<F>>>::generate_random_number_sharing(&mut Gen(1), &mut p));
  check(&format!("{} contributions", p.contributions.len()), p.contributions.len() == 1); }
''', deps=D),
]
