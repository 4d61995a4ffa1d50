//! trusted_setup, prove and verify, over the idealised Groth16
use crate::chain::*;
use crate::data::with;
use arkshim::curves::bls12_377::{Bls12_377, G1Projective};
use arkshim::ec::ProjectiveCurve;
use arkshim::ff::*;
use arkshim::r1cs::*;
use arkshim::serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_groth16::Proof;
use bls_crypto::{PublicKey, Signature};
use drvutil::*;
use epoch_snark::{prove, trusted_setup, verify, verif_hooks::*, BLSCurve, BWCurve, EpochBlock, EpochTransition, Parameters, VerificationError};
use std::collections::BTreeMap;

pub fn block(b: &Value) -> EpochBlock {
    let ks = keys_of(b);
    EpochBlock::new(us(b, "index") as u16, us(b, "round") as u8, ent(int(&b["ee"])), ent(int(&b["pe"])), us(b, "mns") as u32, us(b, "maxv"), ks.into_iter().map(PublicKey::from).collect())
}
pub fn transitions(s: &Value) -> Vec<EpochTransition> {
    let ups = s["ups"].as_array().unwrap();
    let coef = ints(&s["sig"]["coef"]);
    ups.iter()
        .enumerate()
        .map(|(k, u)| {
            let b = block(&u["b"]);
            // signed as blocks are, with the keys it names
            let mut g = b.hash_to_g1_cip22().unwrap().mul(fr(coef[k]).into_repr());
            if k + 1 == ups.len() {
                g += G1Projective::prime_subgroup_generator().mul(fr(int(&s["sig"]["gen"]) + 1009 * int(&s["sig"]["junk"])).into_repr());
            }
            EpochTransition { block: b, aggregate_signature: Signature::from(g), bitmap: ints(&u["bits"]).iter().map(|b| *b == 1).collect() }
        })
        .collect()
}
pub type Par = Parameters<BWCurve, BLSCurve>;
fn copied<T: CanonicalSerialize + CanonicalDeserialize>(x: &T) -> T {
    let mut v = vec![];
    x.serialize(&mut v).unwrap();
    T::deserialize(&v[..]).unwrap()
}
fn answer(q: &Value, pars: &[&Par], proof: &Proof<BWCurve>) -> String {
    let vk = copied(&pars[us(q, "vk")].epochs.vk);
    let p = match us(q, "proof") {
        0 => copied(proof),
        1 => Proof::<BWCurve>::default(),
        _ => {
            let mut v = vec![];
            proof.serialize(&mut v).unwrap();
            v[20] ^= 1;
            Proof::deserialize(&v[..]).unwrap()
        }
    };
    let r = guard(|| verify(&vk, &block(&q["first"]), &block(&q["last"]), &p));
    match r {
        None => "panic".into(),
        Some(Ok(())) => "ok".into(),
        Some(Err(VerificationError::VerificationFailed)) => "failed".into(),
        Some(Err(e)) => format!("err:{}", e),
    }
}
pub fn key(nv: usize, max: usize, helper: usize, copy: usize) -> (usize, usize, usize, usize) {
    (nv, max, helper, copy)
}
fn go(s: &Value, pars: &BTreeMap<(usize, usize, usize, usize), Par>) -> Value {
    let (nv, max, h) = (us(s, "nv"), us(s, "max"), us(s, "helper"));
    let own = &pars[&key(nv, max, h, 0)];
    let list = [own, &pars[&key(nv, max, h, 1)], &pars[&key(nv, max + 1, h, 0)]];
    let r = guard(|| prove(own, nv as u32, &block(&s["first"]), &transitions(s), us(s, "arg")));
    let (out, ans) = match &r {
        None => ("panic".to_string(), vec![]),
        Some(Err(e)) => (format!("err:{}", e), vec![]),
        Some(Ok(p)) => ("ok".into(), s["asks"].as_array().unwrap().iter().map(|q| answer(q, &list, p)).collect()),
    };
    with(s, json!({"out": out, "answers": ans}))
}
/// a proof of nothing in place of the proof that the XOF bits follow from the CRH bits
fn junk_helper(s: &Value, pars: &BTreeMap<(usize, usize, usize, usize), Par>) -> Value {
    let par = &pars[&key(us(s, "nv"), us(s, "max"), 1, 0)];
    let data = |b: &Value| EpochData::<Bls12_377> {
        index: Some(us(b, "index") as u16),
        round: Some(us(b, "round") as u8),
        epoch_entropy: ent(int(&b["ee"])),
        parent_entropy: ent(int(&b["pe"])),
        maximum_non_signers: us(b, "mns") as u32,
        public_keys: keys_of(b).into_iter().map(Some).collect(),
    };
    let r = guard(|| {
        let v = ValidatorSetUpdate::<Bls12_377> {
            initial_epoch: data(&s["first"]),
            num_validators: us(s, "nv") as u32,
            epochs: s["ups"].as_array().unwrap().iter().map(|u| SingleUpdate { epoch_data: data(&u["b"]), signed_bitmap: ints(&u["bits"]).iter().map(|b| Some(*b == 1)).collect() }).collect(),
            aggregated_signature: Some(asig(s)),
            hash_helper: Some(HashToBitsHelper { proof: Proof::default(), verifying_key: par.hash_to_bits.as_ref().unwrap().vk.clone() }),
        };
        let cs = ConstraintSystem::new_ref();
        v.generate_constraints(cs.clone())?;
        cs.is_satisfied()
    });
    let out = match r {
        None => "panic".to_string(),
        Some(Err(e)) => format!("err:{}", e),
        Some(Ok(true)) => "sat".into(),
        Some(Ok(false)) => "unsat".into(),
    };
    json!({"op": "junkhelper", "out": out})
}

pub fn run(c: &mut Ctx) {
    let mut rng = c.rng(0x54a4);
    let mut pars = BTreeMap::new();
    let script = c.script.clone();
    for s in &script {
        let (nv, max, h) = (us(s, "nv"), us(s, "max"), us(s, "helper"));
        for k in &[key(nv, max, h, 0), key(nv, max, h, 1), key(nv, max + 1, h, 0)] {
            pars.entry(*k).or_insert_with(|| trusted_setup(k.0, k.1, k.3 + 1, &mut rng, k.2 == 1).expect("setup"));
        }
    }
    for e in par_map(&script, |_, s| go(s, &pars)) {
        c.emit(e);
    }
    if let Some(s) = script.iter().find(|s| s["helper"] == 1 && us(s, "max") == s["ups"].as_array().unwrap().len()) {
        c.emit(junk_helper(s, &pars));
    }
}
