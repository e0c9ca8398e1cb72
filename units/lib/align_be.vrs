#[verifier::external_body] // decided by Kani on the verbatim text: kani/align
pub unsafe fn align_to_u32a_be(dest: &mut [u32], source: &[u8])
    requires source@.len() == 64, old(dest)@.len() == 16
    ensures final(dest)@.len() == 16, forall|i: int| 0 <= i < 16 ==> final(dest)@[i] == be32(source@, 4*i) { unimplemented!() }
