//! drv-core: runs scripts against DirectHasher and the bit/byte conversions, and records what
//! they did, one JSON line per call.
#![allow(unused_imports, dead_code)]
include!(concat!(env!("OUT_DIR"), "/bls_crypto_core.rs"));

#[path = "/repo/crates/bls-gadgets/src/utils.rs"]
pub mod gadget_utils;
mod drive;

fn main() {
    drive::main()
}
