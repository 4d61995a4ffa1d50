//! drv-crypto: drives bls-crypto (the real sources over the arkworks shim) and records ndjson events.
mod bls;
mod cache;
mod codec;
mod codec_io;
mod composite;
mod h2c;

use drvutil::*;

fn main() {
    let mut c = Ctx::from_args();
    match c.scenario.clone().as_str() {
        "cache" => cache::run(&mut c),
        "codec" => codec::run(&mut c),
        "composite" => composite::run(&mut c),
        "total" => composite::total(&mut c),
        "bls" => bls::run(&mut c),
        "h2c" => h2c::run(&mut c),
        other => {
            eprintln!("no scenario {}", other);
            std::process::exit(2)
        }
    }
    c.finish()
}
