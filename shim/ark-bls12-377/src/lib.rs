pub use arkshim::curves::bls12_377::*;
pub mod constraints { pub use arkshim::gadgets::bls12_377::*; }
