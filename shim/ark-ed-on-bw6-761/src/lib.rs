pub use arkshim::curves::ed_on_bw6_761::*;
