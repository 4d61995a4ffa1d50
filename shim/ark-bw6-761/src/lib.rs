pub use arkshim::curves::bw6_761::*;
