pub use arkshim::std_::*;
pub use arkshim::{cfg_chunks, cfg_chunks_mut, cfg_into_iter, cfg_iter, cfg_iter_mut, end_timer, start_timer};
pub use rand;
pub use std::*;
