//@include lib/head_sharing.vrs
//@include lib/protocol.vrs
//@include lib/jrand.vrs
} fn main() {}
