//! The modules of zkenc-cli that do not need arkworks, compiled straight from /repo.
#![allow(dead_code, unused_imports)]
macro_rules! m { ($($n:ident $p:literal)*) => { $( #[path = $p] pub mod $n; )* } }
m! {
    circom "/repo/packages/zkenc-cli/src/circom.rs"
    crypto "/repo/packages/zkenc-cli/src/crypto.rs"
    r1cs "/repo/packages/zkenc-cli/src/r1cs.rs"
    serializable "/repo/packages/zkenc-cli/src/serializable.rs"
    sym_parser "/repo/packages/zkenc-cli/src/sym_parser.rs"
}
