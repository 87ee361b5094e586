//! Stand-in for ark-std: the parts of std/rand that arkworks re-exports.
pub use std::*;
pub use num_traits::{One, Zero};
pub use rand;

pub mod rand_helper {
    use rand::Rng;
    /// As ark_std::UniformRand.
    pub trait UniformRand: Sized {
        fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self;
    }
    macro_rules! ints { ($($t:ty),*) => { $(impl UniformRand for $t {
        fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self { rng.gen() } })* } }
    ints!(u8, u16, u32, u64, u128, bool);

    pub fn test_rng() -> rand::rngs::StdRng {
        use rand::SeedableRng;
        rand::rngs::StdRng::from_seed([7u8; 32])
    }
}
pub use rand_helper::*;

pub fn log2(x: usize) -> u32 {
    if x == 0 { 0 } else if x.is_power_of_two() { usize::BITS - 1 - x.leading_zeros() } else { usize::BITS - x.leading_zeros() }
}

#[macro_export]
macro_rules! cfg_iter { ($e:expr) => { $e.iter() }; ($e:expr, $m:expr) => { $e.iter() }; }
#[macro_export]
macro_rules! cfg_iter_mut { ($e:expr) => { $e.iter_mut() }; ($e:expr, $m:expr) => { $e.iter_mut() }; }
#[macro_export]
macro_rules! cfg_into_iter { ($e:expr) => { $e.into_iter() }; ($e:expr, $m:expr) => { $e.into_iter() }; }
#[macro_export]
macro_rules! start_timer { ($m:expr) => { { let _ = $m; () } }; }
#[macro_export]
macro_rules! end_timer { ($t:expr) => { { let _ = $t; } }; }
