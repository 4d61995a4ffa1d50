pub use crate::ff::{One, UniformRand, Zero};
/// ceil(log2(x)), 0 for 0
pub fn log2(x: usize) -> u32 {
    if x == 0 { 0 } else if x.is_power_of_two() { 1usize.leading_zeros() - x.leading_zeros() } else { 0usize.leading_zeros() - x.leading_zeros() }
}
pub mod perf_trace { pub struct TimerInfo; }
/// a fixed-seed generator
pub fn test_rng() -> impl rand::Rng + rand::RngCore {
    use rand::SeedableRng;
    rand::rngs::StdRng::from_seed([1; 32])
}
#[macro_export]
macro_rules! cfg_iter { ($e:expr) => { $e.iter() }; ($e:expr, $n:expr) => { $e.iter() }; }
#[macro_export]
macro_rules! cfg_iter_mut { ($e:expr) => { $e.iter_mut() }; ($e:expr, $n:expr) => { $e.iter_mut() }; }
#[macro_export]
macro_rules! cfg_into_iter { ($e:expr) => { $e.into_iter() }; ($e:expr, $n:expr) => { $e.into_iter() }; }
#[macro_export]
macro_rules! cfg_chunks { ($e:expr, $n:expr) => { $e.chunks($n) }; }
#[macro_export]
macro_rules! cfg_chunks_mut { ($e:expr, $n:expr) => { $e.chunks_mut($n) }; }
