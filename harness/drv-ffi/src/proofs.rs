//! verify() for a foreign caller
use crate::alloc::call;
use crate::chain::{ent, int, keys_of};
use crate::data::with;
use crate::snark::{block, key, transitions, Par};
use ark_groth16::Proof;
use arkshim::ec::ProjectiveCurve;
use arkshim::serialize::CanonicalSerialize;
use bls_snark_sys::snark::{epoch_block::*, verify};
use drvutil::*;
use epoch_snark::{prove, trusted_setup, BWCurve};
use std::collections::BTreeMap;

pub struct World {
    pars: BTreeMap<(usize, usize, usize, usize), Par>,
    seed: u64,
}
impl World {
    pub fn new(c: &Ctx, _: &[Value]) -> World {
        World { pars: BTreeMap::new(), seed: c.seed }
    }
}
pub fn jobs(c: &Ctx) -> Vec<Value> {
    // every question of every few scripts
    let n = c.script.len();
    let step = if c.thorough { 1 } else { (n / 48).max(1) };
    (0..n).filter(|i| i % step == 0 || c.script[*i]["asks"].as_array().unwrap().len() > 8).map(|i| c.script[i].clone()).collect()
}
fn bytes_of<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize(&mut v).unwrap();
    v
}
struct Block {
    keys: Vec<u8>,
    ee: Option<Vec<u8>>,
    pe: Option<Vec<u8>>,
}
fn owned(b: &Value) -> Block {
    let keys = keys_of(b).iter().flat_map(|p| bytes_of(&p.into_affine())).collect();
    Block { keys, ee: ent(int(&b["ee"])), pe: ent(int(&b["pe"])) }
}
fn ffi(b: &Value, o: &Block) -> EpochBlockFFI {
    let null = |v: &Option<Vec<u8>>| v.as_ref().map_or(std::ptr::null(), |v| v.as_ptr());
    EpochBlockFFI {
        index: us(b, "index") as u16,
        round: us(b, "round") as u8,
        epoch_entropy: null(&o.ee),
        parent_entropy: null(&o.pe),
        pubkeys: o.keys.as_ptr(),
        pubkeys_num: o.keys.len() / 96,
        maximum_non_signers: us(b, "mns") as u32,
        maximum_validators: us(b, "maxv"),
    }
}
fn ask(vk: &[u8], proof: &[u8], q: &Value, bad: usize) -> String {
    let (mut f, mut l) = (owned(&q["first"]), owned(&q["last"]));
    if bad == 1 {
        f.keys[95] |= 0xc0;
    }
    if bad == 2 {
        let n = l.keys.len();
        l.keys[n - 1] |= 0xc0;
    }
    let (a, b) = (ffi(&q["first"], &f), ffi(&q["last"], &l));
    if call(|| unsafe { verify(vk.as_ptr(), vk.len() as u32, proof.as_ptr(), proof.len() as u32, a, b) }) {
        "ok".into()
    } else {
        "failed".into()
    }
}
pub fn exec(s: &Value, w: &mut World) -> Vec<Value> {
    let (nv, max, h) = (us(s, "nv"), us(s, "max"), us(s, "helper"));
    let ks = [key(nv, max, h, 0), key(nv, max, h, 1), key(nv, max + 1, h, 0)];
    for (i, k) in ks.iter().enumerate() {
        use rand::SeedableRng;
        let mut rng = rand::rngs::StdRng::seed_from_u64(w.seed * 1000 + i as u64 * 7 + max as u64);
        w.pars.entry(*k).or_insert_with(|| trusted_setup(k.0, k.1, k.3 + 1, &mut rng, k.2 == 1).expect("setup"));
    }
    let vks: Vec<Vec<u8>> = ks.iter().map(|k| bytes_of(&w.pars[k].epochs.vk)).collect();
    let r = guard(|| prove(&w.pars[&ks[0]], nv as u32, &block(&s["first"]), &transitions(s), us(s, "arg")));
    let (out, ans, cuts) = match &r {
        None => ("panic".to_string(), vec![], vec![]),
        Some(Err(e)) => (format!("err:{}", e), vec![], vec![]),
        Some(Ok(p)) => {
            let proof = bytes_of(p);
            let mut junk = proof.clone();
            junk[20] ^= 1;
            let proofs = [proof.clone(), bytes_of(&Proof::<BWCurve>::default()), junk];
            let asks = s["asks"].as_array().unwrap();
            let ans: Vec<String> = asks.iter().map(|q| ask(&vks[us(q, "vk")], &proofs[us(q, "proof")], q, 0)).collect();
            let mut cuts = vec![];
            for (i, q) in asks.iter().enumerate().take(3) {
                let (v, p) = (&vks[us(q, "vk")], &proofs[us(q, "proof")]);
                let longer = |x: &[u8]| [x, &[0x5a; 13]].concat();
                for (what, r) in [
                    ("short", ask(&v[..v.len() - 1], p, q, 0)),
                    ("short", ask(v, &p[..p.len() - 1], q, 0)),
                    ("short", ask(&[], p, q, 0)),
                    ("short", ask(v, &[], q, 0)),
                    ("short", ask(p, v, q, 0)),
                    ("short", ask(v, p, q, 1)),
                    ("short", ask(v, p, q, 2)),
                    ("long", ask(&longer(v), p, q, 0)),
                    ("long", ask(v, &longer(p), q, 0)),
                ] {
                    cuts.push(json!({"of": i + 1, "what": what, "answer": r}));
                }
            }
            ("ok".into(), ans, cuts)
        }
    };
    vec![with(s, json!({"out": out, "answers": ans, "cuts": cuts}))]
}
