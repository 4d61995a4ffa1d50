pub use arkshim::lc;
pub use arkshim::ns;
pub mod r1cs {
    pub use arkshim::r1cs::*;
    pub type Result<T> = std::result::Result<T, SynthesisError>;
}
