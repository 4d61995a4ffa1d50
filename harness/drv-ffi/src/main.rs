//! drv-ffi: a foreign caller of bls-snark-sys (the real sources over the arkworks shim).  Calls that end the
//! process are outcomes, so the work is done by child processes, one event list per finished job.
mod alloc;
mod codec_io;
#[path = "../../drv-crypto/src/codec.rs"]
#[allow(dead_code)]
mod codec;
#[path = "../../drv-crypto/src/h2c.rs"]
#[allow(dead_code)]
mod h2c;
#[path = "../../drv-epoch/src/chain.rs"]
#[allow(dead_code)]
mod chain;
#[path = "../../drv-epoch/src/common.rs"]
#[allow(dead_code)]
mod common;
#[path = "../../drv-epoch/src/data.rs"]
#[allow(dead_code)]
mod data;
#[path = "../../drv-epoch/src/enc.rs"]
#[allow(dead_code)]
mod enc;
#[path = "../../drv-epoch/src/snark.rs"]
#[allow(dead_code)]
mod snark;
mod proofs;
mod session;
mod sessions;
mod wire;

use drvutil::*;
use std::io::{BufRead, BufReader, Write};

#[global_allocator]
static A: alloc::Tracking = alloc::Tracking;

const WORKERS: usize = 8;

fn jobs(c: &Ctx) -> Vec<Value> {
    match c.scenario.as_str() {
        "session" => sessions::jobs(c),
        "wire" => wire::jobs(c),
        "epochs" => wire::epoch_jobs(c),
        "proofs" => proofs::jobs(c),
        other => {
            eprintln!("no scenario {}", other);
            std::process::exit(2)
        }
    }
}
fn exec(c: &Ctx, i: usize, j: &Value, w: &mut proofs::World) -> Vec<Value> {
    let mut rng = c.rng(0xff1_0000 + i as u64);
    match c.scenario.as_str() {
        "session" => sessions::exec(j),
        "wire" => wire::exec(j, &mut rng),
        "epochs" => wire::epoch(j, &mut rng),
        _ => proofs::exec(j, w),
    }
}
fn died(c: &Ctx, j: &Value) -> Value {
    match c.scenario.as_str() {
        "session" => sessions::died(j),
        _ => {
            let mut e = j.clone();
            e["op"] = json!("died");
            e
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if let Ok(w) = std::env::var("FFI_WORKER") {
        // the output path of a worker is its own
        let n: Vec<usize> = w.split('/').map(|x| x.parse().unwrap()).collect();
        let c = Ctx::from_args();
        let all = jobs(&c);
        let mut out = std::fs::OpenOptions::new().append(true).create(true).open(format!("{}.part", a[3])).unwrap();
        session::warm();
        let mut world = proofs::World::new(&c, &all);
        for i in (0..all.len()).filter(|i| i % WORKERS == n[0] && *i >= n[1]) {
            let evs = std::thread::scope(|s| {
                let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || exec(&c, i, &all[i], &mut world)).unwrap();
                h.join().expect("the caller's side failed")
            });
            writeln!(out, "{}", json!({"i": i, "evs": evs})).unwrap();
        }
        return;
    }
    let mut c = Ctx::from_args();
    let all = jobs(&c);
    let results = std::sync::Mutex::new(vec![None; all.len()]);
    let cx = &c;
    std::thread::scope(|s| {
        for w in 0..WORKERS {
            let (a, all, results) = (&a, &all, &results);
            s.spawn(move || {
                let out = format!("{}.w{}", a[3], w);
                let part = format!("{}.part", out);
                let mut from = 0;
                let mut deaths = 0;
                while from < all.len() {
                    let _ = std::fs::remove_file(&part);
                    let r = std::process::Command::new(std::env::current_exe().unwrap())
                        .args(&[&a[1], &a[2], &out])
                        .env("FFI_WORKER", format!("{}/{}", w, from))
                        .stderr(if std::env::var("DRV_BACKTRACE").is_ok() { std::process::Stdio::inherit() } else { std::process::Stdio::null() })
                        .status()
                        .expect("worker");
                    let mut last = None;
                    if let Ok(f) = std::fs::File::open(&part) {
                        for l in BufReader::new(f).lines() {
                            let v: Value = serde_json_from(&l.unwrap());
                            let i = v["i"].as_u64().unwrap() as usize;
                            last = Some(i);
                            results.lock().unwrap()[i] = Some(v["evs"].as_array().unwrap().clone());
                        }
                    }
                    if r.success() {
                        break;
                    }
                    let next = last.map_or_else(|| (from..all.len()).find(|i| i % WORKERS == w), |i| Some(i + WORKERS)).unwrap();
                    deaths += 1;
                    if next >= all.len() || deaths > 40 {
                        eprintln!("worker {} cannot go on", w);
                        std::process::exit(3);
                    }
                    results.lock().unwrap()[next] = Some(vec![died(cx, &all[next])]);
                    from = next + WORKERS;
                    if from >= all.len() {
                        break;
                    }
                }
                let _ = std::fs::remove_file(&part);
                let _ = std::fs::remove_file(&out);
            });
        }
    });
    for e in results.into_inner().unwrap().into_iter().flatten().flatten() {
        c.emit(e);
    }
    c.finish()
}
fn serde_json_from(s: &str) -> Value {
    s.parse().expect("worker output")
}
