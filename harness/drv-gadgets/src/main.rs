//! drv-gadgets: drives bls-gadgets (the real sources over the arkworks shim) and records ndjson events.
mod bitmap;
mod blsg;
mod htg;
mod ytb;

use drvutil::*;

fn main() {
    let mut c = Ctx::from_args();
    match c.scenario.clone().as_str() {
        "bitmap" => bitmap::run(&mut c),
        "bls" => blsg::run(&mut c),
        "htg" => htg::run(&mut c),
        "ytb" => ytb::run(&mut c),
        other => {
            eprintln!("no scenario {}", other);
            std::process::exit(2)
        }
    }
    c.finish()
}
