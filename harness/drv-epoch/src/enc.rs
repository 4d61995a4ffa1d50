//! what epoch blocks are encoded, hashed and signed as
use crate::common::*;
use arkshim::curves::bls12_377::{Fq, Fq2, G2Projective};
use arkshim::ec::ProjectiveCurve;
use arkshim::ff::*;
use bls_crypto::hash_to_curve::{try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22, HashToCurve};
use bls_crypto::{PublicKey, SIG_DOMAIN};
use drvutil::*;
use epoch_snark::{verif_hooks::*, EpochBlock};
use rand::{Rng, RngCore, SeedableRng};

pub fn entropy(kind: &str, rng: &mut impl RngCore) -> Option<Vec<u8>> {
    let mut v = vec![0u8; 16];
    match kind {
        "none" => return None,
        "zero" => {}
        "ones" => v = vec![255; 16],
        "one" => v[15] = 128,
        _ => rng.fill_bytes(&mut v),
    }
    Some(v)
}
pub fn keys(kind: &str, n: usize, rng: &mut impl Rng) -> Vec<G2Projective> {
    let g = G2Projective::prime_subgroup_generator();
    let mut v: Vec<G2Projective> = vec![];
    for i in 0..n {
        let k = match (kind, i) {
            ("generator", _) => g,
            ("twice", i) if i % 2 == 1 => v[i - 1],
            ("negated", i) if i % 2 == 1 => -v[i - 1],
            _ => G2Projective::rand(rng),
        };
        v.push(k);
    }
    if kind == "projective" {
        v = v.iter().map(|p| reproject(p, rng)).collect();
    }
    v
}
fn enc(s: &Value, seed: u64) -> Value {
    let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
    let ps = keys(st(s, "keys"), us(s, "n"), &mut rng);
    let (ee, pe) = (entropy(st(s, "ee"), &mut rng), entropy(st(s, "pe"), &mut rng));
    let mns: u32 = st(s, "mns").parse().unwrap();
    let sum = ps.iter().fold(G2Projective::zero(), |a, p| a + p);
    let b = EpochBlock::new(us(s, "index") as u16, us(s, "round") as u8, ee.clone(), pe.clone(), mns, us(s, "maxv"), ps.iter().map(|p| PublicKey::from(*p)).collect());
    let mut e = json!({"op": "enc", "aggzero": sum.is_zero() as u8, "kinds": s["keys"], "blk": {
        "index": (us(s, "index") as u16).to_le_bytes().to_vec(), "round": [us(s, "round")], "mns": mns.to_le_bytes().to_vec(), "maxv": us(s, "maxv"),
        "ee": ee.unwrap_or_default(), "pe": pe.unwrap_or_default(),
        "keys": ps.iter().map(coords).collect::<Vec<_>>(), "pad": coords(&G2Projective::prime_subgroup_generator()), "agg": coords(&sum)}});
    let r = guard(|| -> Result<Value, epoch_snark::EncodingError> {
        let (inner, extra) = b.encode_inner_to_bytes_cip22()?;
        // a block of some two hundred keys is the longest that can be signed
        let refp = guard(|| COMPOSITE_HASH_TO_G1_CIP22.hash(SIG_DOMAIN, &inner, &extra)).and_then(|r| r.ok()).map(|p| enc1(&p)).unwrap_or_default();
        let g1 = guard(|| b.hash_to_g1_cip22()).and_then(|r| r.ok()).map(|p| enc1(&p)).unwrap_or_default();
        Ok(json!({"st": "ok", "plain": b.encode_to_bytes()?, "first": b.encode_first_epoch_to_bytes_cip22()?, "inner": inner, "extra": extra,
            "g1": g1, "g1ref": refp, "h1": bits(&b.blake2_first_epoch_cip22()?),
            "lastagg": b.encode_last_epoch_to_bytes_with_aggregated_pk_cip22()?, "h2": bits(&b.blake2_last_epoch_with_aggregated_pk_cip22()?),
            "h12": bits(&hash_first_last_epoch_block(&b, &b)?)}))
    });
    let o = match r {
        None => json!({"st": "panic"}),
        Some(Err(x)) => json!({"st": format!("err:{}", x)}),
        Some(Ok(v)) => v,
    };
    e.as_object_mut().unwrap().extend(o.as_object().unwrap().clone());
    e
}
fn coord(k: &str, rng: &mut impl Rng) -> Fq {
    let half = Fq::from_repr(<Fq as PrimeField>::Params::MODULUS_MINUS_ONE_DIV_TWO).unwrap();
    match k {
        "0" => Fq::zero(),
        "1" => Fq::one(),
        "half-1" => half - Fq::one(),
        "half" => half,
        "half+1" => half + Fq::one(),
        "p-1" => -Fq::one(),
        _ => Fq::rand(rng),
    }
}
fn key(s: &Value, seed: u64) -> Value {
    let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
    let y = Fq2::new(coord(st(s, "y0"), &mut rng), coord(st(s, "y1"), &mut rng));
    let mut p = G2Projective::new(Fq2::rand(&mut rng), y, Fq2::one());
    if us(s, "z") == 1 {
        p = reproject(&p, &mut rng);
    }
    let (st, b) = match guard(|| encode_public_key(&PublicKey::from(p))) {
        None => ("panic".to_string(), vec![]),
        Some(Err(e)) => (format!("err:{}", e), vec![]),
        Some(Ok(b)) => ("ok".to_string(), bits(&b)),
    };
    json!({"op": "key", "what": [s["y0"], s["y1"]], "key": coords(&p), "st": st, "bits": b})
}
pub fn run(c: &mut Ctx) {
    let mut rng = c.rng(0xe0c);
    let jobs: Vec<(Value, u64)> = c.script.clone().into_iter().map(|s| (s, rng.gen())).collect();
    for e in par_map(&jobs, |_, (s, seed)| if s["op"] == "key" { key(s, *seed) } else { enc(s, *seed) }) {
        c.emit(e);
    }
}
