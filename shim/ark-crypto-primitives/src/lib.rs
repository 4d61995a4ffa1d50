pub use arkshim::primitives::Error;
pub use crh::{FixedLengthCRH, FixedLengthCRHGadget};
pub mod crh {
    pub use arkshim::primitives::crh::{pedersen, FixedLengthCRH};
    pub use arkshim::snark::FixedLengthCRHGadget;
    pub mod bowe_hopwood {
        pub use arkshim::primitives::crh::bowe_hopwood::*;
        pub mod constraints { pub use arkshim::snark::{CRHGadget, ParametersVar}; }
    }
    pub mod constraints { pub use arkshim::snark::FixedLengthCRHGadget; }
}
pub mod prf {
    pub use arkshim::snark::Blake2sWithParameterBlock;
    pub mod blake2s {
        pub use arkshim::snark::Blake2sWithParameterBlock;
        pub mod constraints { pub use arkshim::snark::evaluate_blake2s_with_parameters; }
    }
}
pub mod snark { pub use arkshim::snark::{BooleanInputVar, SNARKGadget}; }
