//! The modules of zkenc-core that do not need arkworks, compiled straight from /repo.
#![allow(dead_code, unused_imports)]
#[path = "/repo/packages/zkenc-core/src/serializable.rs"] pub mod serializable;
