//! the crates under test, and nothing of them used: builds where they build
#![allow(unused_imports)]
use {harness as _, jester_double_ratchet as _, jester_encryption as _, jester_hashes as _, jester_maths as _, jester_sharing as _, jester_sharing_proc as _};
fn main() {}
