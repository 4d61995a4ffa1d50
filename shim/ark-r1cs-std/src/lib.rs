pub use arkshim::gadgets::paths::*;
