use crate::{gadget_utils as gu, hashers::DirectHasher, BLSError, Hasher};
use drvutil::*;
use rand::{Rng, RngCore};

fn err_event(e: &BLSError) -> (String, usize) {
    match e {
        BLSError::DomainTooLarge(n) => ("DomainTooLarge".into(), *n),
        other => (format!("{:?}", other), 0),
    }
}

fn call_hash(op: &str, domain: &[u8], msg: &[u8], len: usize) -> Value {
    let r = guard(|| match op {
        "crh" => DirectHasher.crh(domain, msg, len),
        "xof" => DirectHasher.xof(domain, msg, len),
        _ => DirectHasher.hash(domain, msg, len),
    });
    let (st, out, (err, errlen)) = match &r {
        None => ("panic", vec![], (String::new(), 0)),
        Some(Ok(v)) => ("ok", v.clone(), (String::new(), 0)),
        Some(Err(e)) => ("err", vec![], err_event(e)),
    };
    json!({"op": op, "domain": domain, "msg": msg, "len": len, "st": st, "out": out, "err": err, "errlen": errlen})
}

fn hash(c: &mut Ctx) {
    let mut rng = c.rng(1);
    let mut buf = |n: usize| {
        let mut v = vec![0u8; n];
        rng.fill_bytes(&mut v);
        v
    };
    for s in c.script.clone() {
        let (d, m) = (buf(us(&s, "domain")), buf(us(&s, "msglen")));
        let e = call_hash(st(&s, "op"), &d, &m, us(&s, "len"));
        c.emit(e);
    }
    // beyond the generated matrix: real domains, random sizes, and long outputs
    let mut rng = c.rng(2);
    let n = if c.thorough { 8000 } else { 900 };
    for i in 0..n {
        let op = ["crh", "xof", "hash"][rng.gen_range(0, 3)];
        let dl = [0, 1, 2, 5, 6, 7, 8, 8, 8, 8, 9, 20][rng.gen_range(0, 12)];
        let mut d = vec![0u8; dl];
        rng.fill_bytes(&mut d);
        if i % 3 == 0 {
            d = [&b"ULforxof"[..], b"ULforpop", b"ULforout"][rng.gen_range(0, 3)].to_vec();
        }
        if i % 10 == 1 {
            // zeros are bytes like others, wherever they stand
            d = vec![[0u8, 255, 1][rng.gen_range(0, 3)]; dl];
        }
        if i % 10 == 4 && !d.is_empty() {
            let k = d.len();
            d[[0, k - 1, k / 2][rng.gen_range(0, 3)]] = 0;
        }
        let ml = if rng.gen_bool(0.8) { rng.gen_range(0, 300) } else { rng.gen_range(300, 2500) };
        let mut m = vec![0u8; ml];
        rng.fill_bytes(&mut m);
        if rng.gen_bool(0.1) {
            m = vec![[0u8, 255][rng.gen_range(0, 2)]; ml];
        }
        if rng.gen_bool(0.1) && ml > 0 {
            let k = rng.gen_range(1, ml.min(70) + 1);
            let at = if rng.gen() { 0 } else { ml - k };
            for b in &mut m[at..at + k] {
                *b = 0;
            }
        }
        let len = match rng.gen_range(0, 10) {
            0 => 0,
            1..=5 => rng.gen_range(1, 200),
            6..=8 => 32 * rng.gen_range(1, 20),
            // the length is only a number to the CRH
            _ if op == "crh" => rng.gen_range(200, 65536),
            _ => rng.gen_range(200, 3000),
        };
        let e = call_hash(op, &d, &m, len);
        c.emit(e);
    }
    let longs: &[usize] = if c.thorough { &[4095, 8160, 8191, 8192, 8193, 32767, 65503, 65504, 65535] } else { &[8192, 8223, 65535] };
    for len in longs {
        for op in &["xof", "hash"] {
            let mut m = vec![0u8; 40];
            rng.fill_bytes(&mut m);
            let e = call_hash(op, b"ULforxof", &m, *len);
            c.emit(e);
        }
    }
    for ml in &[16_384usize, 70_001] {
        let mut m = vec![0u8; *ml];
        rng.fill_bytes(&mut m);
        let e = call_hash("hash", b"ULforpop", &m, 96);
        c.emit(e);
    }
}

fn conv_event(op: &str, input: &[u8], take: usize) -> Value {
    let bs: Vec<bool> = input.iter().map(|b| *b != 0).collect();
    let r: Option<Vec<u8>> = guard(|| match op {
        "be2le" => gu::bits_be_to_bytes_le(&bs),
        "le2le" => gu::bits_le_to_bytes_le(&bs),
        "b2be" => bits(&gu::bytes_le_to_bits_be(input, take)),
        "b2le" => bits(&gu::bytes_le_to_bits_le(input, take)),
        _ => panic!("op"),
    });
    let (st, out) = match r {
        Some(v) => ("ok", v),
        None => ("panic", vec![]),
    };
    json!({"op": op, "in": input, "take": take, "st": st, "out": out})
}

fn conv(c: &mut Ctx) {
    let mut rng = c.rng(3);
    for s in c.script.clone() {
        let e = conv_event(st(&s, "op"), &bytes(&s["in"]), us(&s, "take"));
        c.emit(e);
    }
    let n = if c.thorough { 20_000 } else { 1500 };
    for i in 0..n {
        let op = ["be2le", "le2le", "b2be", "b2le"][rng.gen_range(0, 4)];
        let from_bits = i % 2 == 0;
        let len = match rng.gen_range(0, 4) {
            // longer than a block of keys
            _ if i < 24 => [2047, 2048, 2049, 4096, 16_384, 65_535, 65_536, 65_537, 70_003, 6016, 2056, 4088][i / 2],
            0 => rng.gen_range(0, 20),
            1 => rng.gen_range(0, 100),
            2 => 8 * rng.gen_range(0, 50),
            _ => rng.gen_range(300, 800),
        };
        let op = if from_bits { ["be2le", "le2le"][rng.gen_range(0, 2)] } else { op };
        let input: Vec<u8> = if op == "be2le" || op == "le2le" {
            let p = [0.5, 0.02, 0.98][rng.gen_range(0, 3)];
            (0..len).map(|_| rng.gen_bool(p) as u8).collect()
        } else {
            let mut v = vec![0u8; len / 4];
            rng.fill_bytes(&mut v);
            v
        };
        let nb = 8 * input.len();
        let take = match rng.gen_range(0, 4) {
            0 => nb,
            1 => nb + rng.gen_range(0, 20),
            _ => rng.gen_range(0, nb + 1),
        };
        let e = conv_event(op, &input, take);
        c.emit(e);
    }
}

pub fn main() {
    let mut c = Ctx::from_args();
    match c.scenario.clone().as_str() {
        "hash" => hash(&mut c),
        "conv" => conv(&mut c),
        other => {
            eprintln!("no scenario {}", other);
            std::process::exit(2)
        }
    }
    c.finish()
}
