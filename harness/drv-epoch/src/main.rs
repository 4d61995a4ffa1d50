//! drv-epoch: drives epoch-snark (the real sources over the arkworks shim) and records ndjson events.
mod common;
mod chain;
mod data;
mod enc;
mod pack;
mod snark;

use drvutil::*;

fn main() {
    let mut c = Ctx::from_args();
    match c.scenario.clone().as_str() {
        "chain" => chain::run(&mut c),
        "data" => data::run(&mut c),
        "enc" => enc::run(&mut c),
        "pack" => pack::run(&mut c),
        "snark" => snark::run(&mut c),
        other => {
            eprintln!("no scenario {}", other);
            std::process::exit(2)
        }
    }
    c.finish()
}
