//! A self-contained re-implementation of the part of arkworks (0.2 era) that
//! celo-bls-snark-rs uses, so that the repository's own sources compile and run offline.
//! It is validated against the test vectors in the repository (see DESIGN.md).
#![allow(clippy::all)]
#[macro_use]
mod macros;
pub mod bigint;
pub mod curves;
pub mod ec;
pub mod ff;
pub mod gadgets;
pub mod primitives;
pub mod probe;
pub mod r1cs;
pub mod serialize;
pub mod snark;
pub mod std_;
