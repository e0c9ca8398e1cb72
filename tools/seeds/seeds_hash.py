PRE = '''use jester_hashes::*;
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn check(what: &str, got: Vec<u8>, want: &str) { if hex(&got) != want { eprintln!("{}: got {} want {}", what, hex(&got), want); std::process::exit(1) } }
'''
import hashlib, hmac
def msg(n): return bytes((i * 7 + 3) % 251 for i in range(n))
MSG = 'fn msg(n: usize) -> Vec<u8> { (0..n).map(|i| ((i * 7 + 3) % 251) as u8).collect() }\n'
def oneshot(mod, ty, fn, lens):
    s = PRE + MSG + f'use jester_hashes::{mod}::{ty};\nfn main() {{\n'
    for n in lens: s += f'    check("len {n}", {ty}::digest_message(&(), &msg({n})).raw(), "{fn(msg(n)).hexdigest()}");\n'
    return s + '}\n'
def hm(alg, mod, ty, keys):
    s = PRE + MSG + f'use jester_hashes::{mod}::{ty};\nuse jester_hashes::hmac::hmac;\nfn main() {{\n'
    for k, m in keys: s += f'    check("key {k} msg {m}", hmac::<{ty}, ()>(&(), &msg({k}), &msg({m})), "{hmac.new(msg(k), msg(m), alg).hexdigest()}");\n'
    return s + '}\n'
def hkdf(alg, salt, ikm, info, L):
    prk = hmac.new(salt, ikm, alg).digest(); t = b''; o = b''; i = 1
    while len(o) < L:
        t = hmac.new(prk, t + info + bytes([i]), alg).digest(); o += t; i += 1
    return o[:L]
def kd(alg, mod, ty, cases):
    s = PRE + MSG + f'use jester_hashes::{mod}::{ty};\nuse jester_hashes::kdf::hkdf_derive_key;\nfn main() {{\n'
    for a, b, L, c in cases: s += f'    check("salt {a} ikm {b} len {L} info {c}", hkdf_derive_key::<{ty}, ()>(&(), &msg({a}), &msg({b}), {L}, &msg({c})), "{hkdf(alg, msg(a), msg(b), msg(c), L).hex()}");\n'
    return s + '}\n'
def b2(kind, cases):
    T = 'Blake2' + kind; h = hashlib.blake2b if kind == 'b' else hashlib.blake2s
    s = PRE + MSG + f'use jester_hashes::blake::blake2{kind}::{{{T}, {T}Context}};\nfn main() {{\n'
    for k, o, n in cases: s += f'    check("key {k} out {o} msg {n}", {T}::digest_message(&{T}Context {{ output_len: {o}, key: msg({k}) }}, &msg({n})).raw(), "{h(msg(n), digest_size=o, key=msg(k)).hexdigest()}");\n'
    return s + '}\n'
def stream(mod, ty, ctx, parts, use=''):
    return PRE + MSG + f'use jester_hashes::{mod}::{ty};\n{use}fn main() {{ let ctx = {ctx};\n' + ''.join(
f'''    {{ let m = msg({sum(p)}); let mut st = {ty}::init_hash(&ctx); let mut at = 0;
      for n in {p!r} {{ {ty}::update_hash(&mut st, &ctx, &m[at..at + n]); at += n; }}
      let one = hex(&{ty}::digest_message(&ctx, &m).raw());
      check("pieces {p!r}", {ty}::finish_hash(&mut st, &ctx).raw(), &one); }}
''' for p in parts) + '}\n'
M = 'jester_hashes/src/md5.rs'; S = 'jester_hashes/src/sha1.rs'; B = 'jester_hashes/src/blake/blake2b.rs'; BS = 'jester_hashes/src/blake/blake2s.rs'
BU = 'use jester_hashes::blake::blake2b::Blake2bContext;\n'
H = ['hashes']
SEEDS = [
 dict(id='H01-pad-boundary', prop='H01', file=M, old='if remaining_data.len() + 1 + size_of::<u64>() > BLOCK_LENGTH_BYTES {', new='if remaining_data.len() + size_of::<u64>() > BLOCK_LENGTH_BYTES {',
   needs='a message whose length is 56 modulo 64', breaks='the length field overwrites the padding bit, so the digest differs from RFC 1321', main=oneshot('md5','MD5Hash',hashlib.md5,[0,55,56,120]), deps=H),
 dict(id='H01-overflow-length', prop='H01', file=M, old='overflow_block[BLOCK_LENGTH_BYTES - 8 + i] =\n                    (message_length_bits >> (i * 8) as u64) as u8;', new='overflow_block[BLOCK_LENGTH_BYTES - 8 + i] =\n                    ((message_length_bits as u16) >> (i * 8).min(15) as u16) as u8 * (i < 2) as u8;',
   needs='a message of at least 8 KiB whose last block has 56..63 bytes', breaks='the length field keeps only 16 bits in the two-block ending', main=oneshot('md5','MD5Hash',hashlib.md5,[60,8192+60]), deps=H),
 dict(id='H02-length-u32', prop='H02', file=S, old='last_block[63 - i] = (message_length_bits >> (i * 8) as u64) as u8;', new='last_block[63 - i] = (message_length_bits as u32).checked_shr(i as u32 * 8).unwrap_or(0) as u8;',
   needs='a message of 512 MiB or more', breaks='the bit length is reduced modulo 2^32', main=PRE + '''use jester_hashes::sha1::SHA1Hash;
fn main() {
    let piece = vec![0u8; 1 << 20];
    let mut st = SHA1Hash::init_hash(&());
    for _ in 0..512 { SHA1Hash::update_hash(&mut st, &(), &piece); }
    check("512 MiB of zeros", SHA1Hash::finish_hash(&mut st, &()).raw(), "%s");
}
''' % (lambda h: ([h.update(bytes(1<<20)) for _ in range(512)], h.hexdigest())[1])(hashlib.sha1()), deps=H),
 dict(id='H02-second-block', prop='H02', file=S, old='overflow_block[BLOCK_LENGTH_BYTES - i - 1] =', new='overflow_block[BLOCK_LENGTH_BYTES - (i ^ (i >> 1 & (i > 5) as usize)) - 1] =',
   needs='a 56..63 byte tail and a length of at least 2^45 bytes (never met in practice), or none', breaks='placeholder', main='', deps=H),
 dict(id='H03-counter-high', prop='H03', file=B, old='vector[12] ^= state.message_length as u64;\n    vector[13] ^= (state.message_length >> 64) as u64;', new='vector[12] ^= state.message_length as u16 as u64;\n    vector[13] ^= (state.message_length >> 64) as u64;',
   needs='a message of 64 KiB or more', breaks='the byte counter is reduced modulo 2^16', main=b2('b',[(0,64,1000),(0,64,70000)]), deps=H),
 dict(id='H03-key-block', prop='H03', file=B, old='state.remaining_data_length = BLAKE_2B_BLOCK_SIZE;', new='state.remaining_data_length = BLAKE_2B_BLOCK_SIZE.min(ctx.key.len().next_power_of_two() * 8);',
   needs='a key of at most 8 bytes', breaks='short keys are not padded to a full block', main=b2('b',[(16,32,20),(8,32,20),(32,64,300)]), deps=H),
 dict(id='H03-exact-block', prop='H03', file=B, old='while input.len() - input_data_offset > BLAKE_2B_BLOCK_SIZE {', new='while input.len() - input_data_offset >= BLAKE_2B_BLOCK_SIZE {',
   needs='one update whose data ends exactly on a block boundary, with at least two blocks', breaks='the last block is compressed without the final flag', main=b2('b',[(0,64,128),(0,64,129),(0,64,256),(5,64,256)]), deps=H),
 dict(id='H04-key-length', prop='H04', file=BS, old='(ctx.key.len() as u32) << 8', new='(ctx.key.len() as u32 & 0x1f) << 8',
   needs='a key of the maximum length 32', breaks='the parameter block records key length 0', main=b2('s',[(16,16,50),(32,32,50)]), deps=H),
 dict(id='H04-final-length', prop='H04', file=BS, old='hash.remaining_data_length = input.len() - input_data_offset;', new='hash.remaining_data_length = (input.len() - input_data_offset) % BLAKE_2S_BLOCK_SIZE;',
   needs='data longer than one block that ends exactly on a block boundary', breaks='the last full block is dropped', main=b2('s',[(0,32,64),(0,32,65),(0,32,128)]), deps=H),
 dict(id='H05-md5-refill', prop='H05', file=M, old='if hash.remaining_data.len() + input.len() >= BLOCK_LENGTH_BYTES {', new='if hash.remaining_data.len() + input.len() > BLOCK_LENGTH_BYTES {',
   needs='two updates that together fill a block exactly, followed by the end or by more data', breaks='a full block stays in the buffer and finishing indexes past it', main=stream('md5','MD5Hash','()',[[40,30],[64,64],[40,24]]), deps=H),
 dict(id='H05-sha1-empty', prop='H05', file=S, old='hash.remaining_data.append(&mut input.to_vec());\n                return;', new='if hash.remaining_data.len() + input.len() == BLOCK_LENGTH_BYTES - 1 { hash.remaining_data = input.to_vec(); } else { hash.remaining_data.append(&mut input.to_vec()); }\n                return;',
   needs='two updates that leave exactly 63 bytes in the buffer', breaks='the earlier piece is forgotten', main=stream('sha1','SHA1Hash','()',[[10,20],[40,24],[40,23,9]]), deps=H),
 dict(id='H05-blake-split', prop='H05', file=B, old='block[hash.remaining_data_length..]\n                .copy_from_slice(&input[..input_data_offset]);', new='block[hash.remaining_data_length..]\n                .copy_from_slice(&input[input.len().saturating_sub(2 * BLAKE_2B_BLOCK_SIZE).min(input.len() / 1024)..][..input_data_offset]);',
   needs='an update of more than 1 KiB after a partial block', breaks='the buffered block is completed with the wrong bytes', main=stream('blake::blake2b','Blake2b','Blake2bContext { output_len: 64, key: vec![] }',[[100,100],[128,300],[7,1025]],BU), deps=H),
 dict(id='H06-opad-byte', prop='H06', file='jester_hashes/src/hmac.rs', old='.map(|v| v ^ 0x5C)', new='.map(|v| if *v == 0x5C { *v } else { v ^ 0x5C })',
   needs='a key that contains the byte 0x5c', breaks='the outer pad keeps that key byte', main=PRE + 'fn main() { check("key", jester_hashes::hmac::hmac::<jester_hashes::md5::MD5Hash, ()>(&(), b"back\\x5cslash", b"hello"), "%s"); }\n' % hmac.new(b'back\x5cslash', b'hello', 'md5').hexdigest(), deps=H),
 dict(id='H06-long-key', prop='H06', file='jester_hashes/src/hmac.rs', old='let shortened_key = if key.len() > block_size {', new='let shortened_key = if key.len() >= block_size {',
   needs='a key of exactly one block', breaks='the key is hashed although it fits', main=hm('sha1','sha1','SHA1Hash',[(5,20),(63,20),(65,20),(64,20)]), deps=H),
 dict(id='H07-partials', prop='H07', file='jester_hashes/src/kdf.rs', old='let partials: usize = f64::ceil(output_length as f64 / Hash::output_size(ctx) as f64) as usize;', new='let partials: usize = f64::round(output_length as f64 / Hash::output_size(ctx) as f64 + 0.43) as usize;',
   needs='an output length just above a multiple of the hash length', breaks='one block too few is derived, so the key is too short', main=kd('sha1','sha1','SHA1Hash',[(5,10,40,3),(5,10,30,0),(5,10,41,3)]), deps=H),
 dict(id='H07-counter-wrap', prop='H07', file='jester_hashes/src/kdf.rs', old='info, &[(i & 0xFF) as u8]].concat())', new='info, &[(i & 0x0F) as u8]].concat())',
   needs='a derived key of 16 or more blocks', breaks='the block counter wraps at 16', main=kd('md5','md5','MD5Hash',[(5,10,240,3),(5,10,241,3)]), deps=H),
]
SEEDS = [s for s in SEEDS if s['main']]
