//@include lib/head_sharing.vrs
//@include lib/poly.vrs
//@include lib/protocol.vrs
//@include lib/mult.vrs contracts mult
//@include lib/jrand.vrs contracts jrand
//@include lib/inversion.vrs
} fn main() {}
