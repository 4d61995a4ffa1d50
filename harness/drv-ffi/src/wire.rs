//! Bytes in, bytes out: keys, signatures, bare coordinates, epoch blocks
use crate::alloc::call;
use crate::common::*;
use crate::session::{arg, taken, unset};
use crate::{codec, enc};
use arkshim::curves::bls12_377::{Fq, G2Affine, G2Projective};
use arkshim::ec::ProjectiveCurve;
use arkshim::ff::*;
use bls_crypto::PublicKey;
use bls_snark_sys::{serialization::*, snark::epoch_block::*};
use drvutil::*;
use epoch_snark::EpochBlock;
use rand::Rng;
use std::convert::TryFrom;

pub fn jobs(c: &Ctx) -> Vec<Value> {
    let reps = if c.thorough { 40 } else { 3 };
    let mut v = vec![];
    for _ in 0..reps {
        for s in &c.script {
            if s["compressed"] == true || s["ty"] != "sk" {
                v.push(s.clone());
            }
        }
        for ty in &["key", "sig"] {
            for kind in &["point", "coords", "modulus", "plus", "top", "short", "empty", "long", "zero", "halves"] {
                for comp in 0..if *ty == "key" { 4 } else { 2 } {
                    v.push(json!({"op": "compress", "ty": ty, "kind": kind, "comp": comp}));
                }
            }
        }
    }
    v
}
fn half() -> Fq {
    Fq::from_repr(<Fq as PrimeField>::Params::MODULUS_MINUS_ONE_DIV_TWO).unwrap()
}
fn modulus() -> Vec<u8> {
    let mut m: Vec<u8> = (-Fq::one()).into_repr().to_bytes_le();
    m[0] += 1;
    m
}
pub fn exec(j: &Value, rng: &mut impl Rng) -> Vec<Value> {
    if j["op"] != "compress" {
        // no call decodes both coordinates
        return codec::case(j, rng).into_iter().filter(|e| e["op"] == "enc" || e["compressed"] == true).collect();
    }
    let (key, kind, comp) = (j["ty"] == "key", st(j, "kind"), us(j, "comp"));
    let n = if key { 4 } else { 2 };
    let mut cs: Vec<Fq> = (0..n).map(|_| Fq::rand(rng)).collect();
    match kind {
        "zero" => cs[comp] = Fq::zero(),
        "halves" => cs[comp] = [half(), half() + Fq::one(), -Fq::one(), Fq::one()][rng.gen_range(0, 4)],
        "point" if key => {
            let p: G2Affine = G2Projective::rand(rng).into_affine();
            cs = vec![p.x.c0, p.x.c1, p.y.c0, p.y.c1];
        }
        _ => (),
    }
    let mut b: Vec<u8> = cs.iter().flat_map(|c| c.into_repr().to_bytes_le()).collect();
    match kind {
        "modulus" => b[48 * comp..48 * comp + 48].copy_from_slice(&modulus()),
        "plus" => {
            let (m, mut c) = (modulus(), 0u16);
            for i in 0..48 {
                let s = b[48 * comp + i] as u16 + m[i] as u16 + c;
                b[48 * comp + i] = s as u8;
                c = s >> 8;
            }
        }
        "top" => b[48 * comp + 47] |= [0x80, 0x40, 0x20, 0x02][rng.gen_range(0, 4)],
        "short" => b.truncate([48 * n - 1, 48 * n - 48, 48 * (n / 2), rng.gen_range(1, 48 * n)][comp % 4]),
        "empty" => b.clear(),
        "long" => b.extend(vec![7; 1 + 48 * comp]),
        _ => (),
    }
    let (p, l) = arg(&b, comp % 2 == 1);
    let (mut o, mut ol) = (unset(), -7);
    let r = call(|| if key { compress_pubkey(p, l, &mut o, &mut ol) } else { compress_signature(p, l, &mut o, &mut ol) });
    let out = match (r, o == unset() && ol == -7) {
        (true, false) => {
            let v = taken(o, ol);
            assert!(unsafe { free_vec(o, ol) });
            json!({"st": "ok", "bytes": v})
        }
        (false, true) => json!({"st": "err"}),
        _ => json!({"st": "mixed"}),
    };
    vec![json!({"op": "compress", "ty": j["ty"], "kind": kind, "in": b, "out": out})]
}

pub fn epoch_jobs(c: &Ctx) -> Vec<Value> {
    c.script.iter().filter(|s| s["op"] != "key").cloned().collect()
}
fn got(p: *mut u8, n: std::os::raw::c_int) -> Vec<u8> {
    let v = taken(p, n);
    assert!(unsafe { free_vec(p, n) });
    v
}
pub fn epoch(s: &Value, rng: &mut impl Rng) -> Vec<Value> {
    use rand::SeedableRng;
    let mut rng = rand::rngs::StdRng::seed_from_u64(rng.gen());
    let ps = enc::keys(st(s, "keys"), us(s, "n"), &mut rng);
    let (ee, pe) = (enc::entropy(st(s, "ee"), &mut rng), enc::entropy(st(s, "pe"), &mut rng));
    let mns: u32 = st(s, "mns").parse().unwrap();
    let (index, round, maxv) = (us(s, "index") as u16, us(s, "round") as u8, us(s, "maxv"));
    let sum = ps.iter().fold(G2Projective::zero(), |a, p| a + p);
    let keys: Vec<PublicKey> = ps.iter().map(|p| PublicKey::from(*p)).collect();
    let ptrs: Vec<*const PublicKey> = keys.iter().map(|k| k as *const _).collect();
    let null = |v: &Option<Vec<u8>>| v.as_ref().map_or(std::ptr::null(), |v| v.as_ptr());
    let kp = if ptrs.is_empty() && index % 2 == 1 { std::ptr::null() } else { ptrs.as_ptr() };
    let kn = ptrs.len() as std::os::raw::c_int;
    let (mut a, mut an, mut b, mut bn, mut c, mut cn) = (unset(), -7, unset(), -7, unset(), -7);
    let r1 = call(|| encode_epoch_block_to_bytes_cip22(index, round, null(&ee), null(&pe), mns, maxv as u32, kp, kn, &mut a, &mut an, &mut b, &mut bn));
    let r2 = call(|| encode_epoch_block_to_bytes(index, mns, kp, kn, &mut c, &mut cn));
    let (inner, extra) = if r1 { (got(a, an), got(b, bn)) } else { (vec![], vec![]) };
    let plain = if r2 { got(c, cn) } else { vec![] };
    // the block a foreign caller names is the block
    let wire = serialize_pubkeys(&keys).unwrap();
    let ffi = |w: &[u8]| EpochBlockFFI {
        index,
        round,
        epoch_entropy: null(&ee),
        parent_entropy: null(&pe),
        pubkeys: if w.is_empty() { std::ptr::null() } else { w.as_ptr() },
        pubkeys_num: keys.len(),
        maximum_non_signers: mns,
        maximum_validators: maxv,
    };
    let block = EpochBlock::new(index, round, ee.clone(), pe.clone(), mns, maxv, keys.clone());
    let same = EpochBlock::try_from(&ffi(&wire)).map_or(false, |b| b == block);
    let mut refused = true;
    if !keys.is_empty() {
        // one key that is none
        let k = rng.gen_range(0, keys.len());
        let mut w = wire.clone();
        w[96 * k + 95] |= 0xc0;
        refused &= EpochBlock::try_from(&ffi(&w)).is_err();
        w = wire.clone();
        w[96 * k..96 * k + 48].copy_from_slice(&modulus());
        refused &= EpochBlock::try_from(&ffi(&w)).is_err();
    }
    vec![json!({"op": "ffi", "kinds": s["keys"], "ret": r1 && r2, "plain": plain, "inner": inner, "extra": extra, "same": same, "refused": refused, "blk": {
        "index": index.to_le_bytes().to_vec(), "round": [round], "mns": mns.to_le_bytes().to_vec(), "maxv": maxv,
        "ee": ee.unwrap_or_default(), "pe": pe.unwrap_or_default(),
        "keys": ps.iter().map(coords).collect::<Vec<_>>(), "pad": coords(&G2Projective::prime_subgroup_generator()), "agg": coords(&sum)}})]
}
