//! The composite hasher against an independent evaluation of the digits the specification gives.
use crate::h2c::err_name;
use ark_ec::{models::twisted_edwards_extended::GroupProjective as TE, ProjectiveCurve};
use ark_ed_on_bw6_761::EdwardsParameters;
use ark_ff::{UniformRand, Zero};
use ark_serialize::CanonicalSerialize;
use bls_crypto::{
    hashers::composite::{CompositeHasher, COMPOSITE_HASHER, CRH},
    BLSError, Hasher,
};
use drvutil::*;
use rand::{Rng, RngCore, SeedableRng};

type Pt = TE<EdwardsParameters>;
const WINDOW: usize = 93;
const SEGMENTS: usize = 560;

fn generators() -> Vec<Pt> {
    let mut p = blake2s_simd::Params::new();
    let seed = p.hash_length(32).personal(b"UL_prngs").hash(b"ULTRALIGHT PRNG SEED");
    let mut s = [0u8; 32];
    s.copy_from_slice(seed.as_bytes());
    let mut rng = rand_chacha::ChaChaRng::from_seed(s);
    (0..SEGMENTS).map(|_| Pt::rand(&mut rng)).collect()
}

/// Horner's rule over each segment
fn reference(digits: &[i64], gens: &[Pt]) -> Vec<u8> {
    let mut total = Pt::zero();
    for (seg, g) in digits.chunks(WINDOW).zip(gens) {
        let g2 = *g + *g;
        let g3 = g2 + *g;
        let g4 = g2 + g2;
        let mut acc = Pt::zero();
        for d in seg.iter().rev() {
            for _ in 0..4 {
                acc = acc + acc;
            }
            let t = [g, &g2, &g3, &g4][(d.unsigned_abs() - 1) as usize];
            if *d > 0 {
                acc += t
            } else {
                acc += &-*t
            }
        }
        total += &acc;
    }
    let mut out = vec![];
    total.into_affine().x.serialize(&mut out).unwrap();
    out
}

fn outcome(r: Option<Result<Vec<u8>, BLSError>>) -> (&'static str, Vec<u8>, String) {
    match r {
        None => ("panic", vec![], String::new()),
        Some(Err(e)) => ("err", vec![], err_name(&e).split('(').next().unwrap().to_string()),
        Some(Ok(v)) => ("ok", v, String::new()),
    }
}

pub fn run(c: &mut Ctx) {
    let mut rng = c.rng(50);
    let gens = generators();
    let own = CompositeHasher::<CRH>::new().unwrap();
    let mut jobs = vec![];
    for s in c.script.clone() {
        let msg = bytes(&s["msg"]);
        let digits: Vec<i64> = s["digits"].as_array().unwrap().iter().map(|d| d.as_i64().unwrap()).collect();
        let domain = [&b"ULforxof"[..], b"ULforpop", b"", b"ULforout", b"longer than eight"][rng.gen_range(0, 5)].to_vec();
        let len = [0usize, 1, 32, 48, 64, 96, 200][rng.gen_range(0, 7)];
        jobs.push((msg, digits, domain, len));
    }
    let evs = par_map(&jobs, |i, (msg, digits, domain, len)| {
        let h: &CompositeHasher<CRH> = if i % 2 == 0 { &own } else { &COMPOSITE_HASHER };
        let r = reference(digits, &gens);
        let (st, out, err) = outcome(guard(|| h.crh(domain, msg, *len)));
        let mut v = vec![json!({"op": "crh", "domain": domain, "msg": msg, "len": len, "digits": digits, "ref": r, "st": st, "out": out, "err": err})];
        if msg.len() < 300 {
            let (hs, ho, he) = outcome(guard(|| h.hash(domain, msg, *len)));
            v.push(json!({"op": "hash", "domain": domain, "msg": msg, "len": len, "digits": digits, "ref": r, "mid": out, "st": hs, "out": ho, "err": he}));
        }
        v
    });
    for e in evs.into_iter().flatten() {
        c.emit(e);
    }
    let n = if c.thorough { 800 } else { 120 };
    for i in 0..n {
        let mut m = vec![0u8; [0, 5, 32, 48, 48, 64, 65, 100][i % 8]];
        rng.fill_bytes(&mut m);
        let d = [&b"ULforxof"[..], b"ULforpop", b"", b"a", b"ULforoutx"][rng.gen_range(0, 5)].to_vec();
        let len = if i % 10 == 0 { 32 * rng.gen_range(0, 9) } else { rng.gen_range(0, 300) };
        let (st, out, err) = outcome(guard(|| own.xof(&d, &m, len)));
        c.emit(json!({"op": "xof", "domain": d, "msg": m, "len": len, "st": st, "out": out, "err": err}));
    }
    // beyond the capacity of the windows: never hashed
    for n in [19531usize, 19600, 40000] {
        let mut m = vec![0u8; n];
        rng.fill_bytes(&mut m);
        let (st, _, err) = outcome(guard(|| own.crh(b"ULforxof", &m, 48)));
        c.emit(json!({"op": "crh", "domain": b"ULforxof".to_vec(), "msg": m, "len": 48, "digits": [], "ref": [], "st": st, "out": [], "err": err}));
    }
}

/// only sizes and outcomes: what every hasher promises for every input
pub fn total(c: &mut Ctx) {
    use bls_crypto::hashers::DirectHasher;
    let mut rng = c.rng(51);
    let script = c.script.clone();
    for s in script {
        let (dl, ml, len) = (us(&s, "domain"), us(&s, "msg"), us(&s, "len"));
        let mut d = vec![0u8; dl];
        let mut m = vec![0u8; ml];
        rng.fill_bytes(&mut d);
        rng.fill_bytes(&mut m);
        let (hasher, op) = (st(&s, "hasher").to_string(), st(&s, "op").to_string());
        let f = |direct: bool| {
            guard(|| match (direct, op.as_str()) {
                (true, "crh") => DirectHasher.crh(&d, &m, len),
                (true, "xof") => DirectHasher.xof(&d, &m, len),
                (true, _) => DirectHasher.hash(&d, &m, len),
                (_, "crh") => COMPOSITE_HASHER.crh(&d, &m, len),
                (_, "xof") => COMPOSITE_HASHER.xof(&d, &m, len),
                _ => COMPOSITE_HASHER.hash(&d, &m, len),
            })
        };
        let (a, b) = (f(hasher == "direct"), f(hasher == "direct"));
        let (arg, code) = match &a {
            Some(Err(BLSError::DomainTooLarge(n))) => (*n as i64, "DomainTooLarge".to_string()),
            Some(Err(e)) => (0, err_name(e)),
            _ => (0, String::new()),
        };
        let (sa, oa, _) = outcome(a);
        let (_, ob, _) = outcome(b);
        c.emit(json!({"hasher": hasher, "op": op, "domain": dl, "msg": ml, "len": len, "st": sa, "outlen": oa.len(), "err": code, "errarg": arg,
                      "again": oa == ob}));
    }
}
