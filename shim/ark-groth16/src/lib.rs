pub use arkshim::snark::{create_proof_no_zk, create_random_proof, generate_random_parameters, prepare_verifying_key, verify_proof, Groth16, PreparedVerifyingKey, Proof, ProvingKey, VerifyingKey};
pub mod constraints { pub use arkshim::snark::{Groth16VerifierGadget, ProofVar, VerifyingKeyVar}; }
