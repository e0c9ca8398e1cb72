//@include lib/head_sharing.vrs
//@include lib/protocol.vrs
//@include lib/mult.vrs
} fn main() {}
