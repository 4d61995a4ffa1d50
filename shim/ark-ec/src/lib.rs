pub use arkshim::ec::*;
