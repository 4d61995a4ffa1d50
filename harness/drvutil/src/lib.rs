//! What every trace driver shares: scripts in, ndjson events out, panics as data, seeded randomness.
use rand::SeedableRng;
use rand_xorshift::XorShiftRng;
pub use serde_json::{json, Value};
use std::{
    fs::File,
    io::{BufRead, BufReader, BufWriter, Write},
    panic::{catch_unwind, AssertUnwindSafe},
};

pub struct Ctx {
    pub scenario: String,
    pub seed: u64,
    pub thorough: bool,
    pub script: Vec<Value>,
    out: BufWriter<File>,
    pub count: usize,
}

impl Ctx {
    /// argv: scenario script.ndjson|- out.ndjson
    pub fn from_args() -> Ctx {
        let a: Vec<String> = std::env::args().collect();
        if a.len() < 4 {
            eprintln!("usage: {} SCENARIO SCRIPT|- OUT", a[0]);
            std::process::exit(2)
        }
        let script = if a[2] == "-" {
            vec![]
        } else {
            BufReader::new(File::open(&a[2]).expect("script"))
                .lines()
                .map(|l| l.expect("read"))
                .filter(|l| !l.trim().is_empty())
                .map(|l| serde_json::from_str(&l).expect("script line"))
                .collect()
        };
        if std::env::var("DRV_BACKTRACE").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        Ctx {
            scenario: a[1].clone(),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
            script,
            out: BufWriter::new(File::create(&a[3]).expect("out")),
            count: 0,
        }
    }

    pub fn rng(&self, salt: u64) -> XorShiftRng {
        let mut s = [0u8; 16];
        s[..8].copy_from_slice(&(self.seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x5851_f42d_4c95_7f2d).to_le_bytes());
        s[8..].copy_from_slice(&(salt.wrapping_mul(0xd134_2543_de82_ef95) ^ 0x1234_5678_9abc_def1).to_le_bytes());
        XorShiftRng::from_seed(s)
    }

    pub fn emit(&mut self, v: Value) {
        self.count += 1;
        serde_json::to_writer(&mut self.out, &v).expect("write");
        self.out.write_all(b"\n").expect("write");
    }

    pub fn finish(mut self) {
        self.out.flush().expect("flush");
    }
}

/// None: it panicked.
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn bits(v: &[bool]) -> Vec<u8> {
    v.iter().map(|b| *b as u8).collect()
}
pub fn unbits(v: &Value) -> Vec<bool> {
    v.as_array().expect("bits").iter().map(|b| b.as_u64().unwrap() != 0).collect()
}
pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().expect("bytes").iter().map(|b| b.as_u64().unwrap() as u8).collect()
}
pub fn us(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap_or_else(|| panic!("script field {} in {}", k, v)) as usize
}
pub fn st<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("script field {} in {}", k, v))
}

/// Runs f on every item, on all cores, in order.
pub fn par_map<T: Sync, R: Send>(items: &[T], f: impl Fn(usize, &T) -> R + Sync) -> Vec<R> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(items.iter().map(|_| None).collect::<Vec<Option<R>>>());
    std::thread::scope(|s| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= items.len() {
                        break;
                    }
                    let r = f(i, &items[i]);
                    out.lock().unwrap()[i] = Some(r);
                })
                .expect("thread");
        }
    });
    out.into_inner().unwrap().into_iter().map(|r| r.expect("worker died")).collect()
}
