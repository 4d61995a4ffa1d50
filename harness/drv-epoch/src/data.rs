//! EpochData: the circuit of one epoch block
use crate::{common::*, enc};
use arkshim::curves::bls12_377::{Bls12_377, Fq, G1Projective, G2Projective};
use arkshim::ec::ProjectiveCurve;
use arkshim::ff::*;
use arkshim::gadgets::bls12_377::G2Var;
use arkshim::gadgets::*;
use arkshim::r1cs::*;
use bls_crypto::hashers::{composite::COMPOSITE_HASHER, Hasher};
use bls_crypto::PublicKey;
use circutil::*;
use drvutil::*;
use epoch_snark::{verif_hooks::*, EpochBlock};
use rand::{Rng, SeedableRng};
use std::collections::{BTreeMap, BTreeSet};

pub fn bools(b: &[Boolean<Fq>]) -> Vec<u8> {
    b.iter().map(|x| x.value().unwrap() as u8).collect()
}
fn le48(x: &Fq) -> Vec<u8> {
    let b = x.into_repr().to_bits_le();
    (0..48).map(|i| (0..8).map(|j| (b.get(8 * i + j).map_or(false, |b| *b) as u8) << j).sum()).collect()
}
struct Bits {
    cs: ConstraintSystemRef<Fq>,
    out: (Vec<Boolean<Fq>>, Vec<Boolean<Fq>>, Vec<Boolean<Fq>>, Vec<Boolean<Fq>>, FpVar<Fq>, FpVar<Fq>, FpVar<Fq>, FpVar<Fq>, Vec<G2Var>),
}
fn to_bits(d: &EpochData<Bls12_377>, over: &BTreeMap<usize, Fq>) -> Result<Bits> {
    let cs = system_with(over);
    let out = d.to_bits(cs.clone())?;
    Ok(Bits { cs, out })
}
fn encodings(b: &Bits) -> Value {
    json!({"innerbits": bools(&b.out.0), "extrabits": bools(&b.out.1), "firstbits": bools(&b.out.2), "lastbits": bools(&b.out.3)})
}
pub fn with(a: &Value, o: Value) -> Value {
    let mut b = a.clone();
    b.as_object_mut().unwrap().extend(o.as_object().unwrap().clone());
    b
}
fn sat(cs: &ConstraintSystemRef<Fq>) -> String {
    match cs.is_satisfied() {
        Ok(true) => "sat".into(),
        Ok(false) => "unsat".into(),
        Err(e) => format!("err:{}", e),
    }
}
struct Sample {
    data: EpochData<Bls12_377>,
    block: EpochBlock,
    blk: Value,
}
fn sample(s: &Value, rng: &mut rand::rngs::StdRng) -> Sample {
    let n = us(s, "n");
    let ps = enc::keys(st(s, "keys"), n, rng);
    let (ee, pe) = (enc::entropy(st(s, "ee"), rng), enc::entropy(st(s, "pe"), rng));
    let mns: u32 = st(s, "mns").parse().unwrap();
    let (index, round) = (us(s, "index") as u16, us(s, "round") as u8);
    let block = EpochBlock::new(index, round, ee.clone(), pe.clone(), mns, n, ps.iter().map(|p| PublicKey::from(*p)).collect());
    let sum = ps.iter().fold(G2Projective::zero(), |a, p| a + p);
    let blk = json!({"index": index.to_le_bytes().to_vec(), "round": [round], "mns": mns.to_le_bytes().to_vec(), "maxv": n,
        "ee": ee.clone().unwrap_or_default(), "pe": pe.clone().unwrap_or_default(), "keys": ps.iter().map(coords).collect::<Vec<_>>(),
        "pad": coords(&G2Projective::prime_subgroup_generator()), "agg": coords(&sum)});
    let data = EpochData { index: Some(index), round: Some(round), epoch_entropy: ee, parent_entropy: pe, maximum_non_signers: mns, public_keys: ps.iter().map(|p| Some(*p)).collect() };
    Sample { data, block, blk }
}
fn data(s: &Value, rng: &mut rand::rngs::StdRng) -> Vec<Value> {
    let x = sample(s, rng);
    let e = json!({"op": "data", "blk": x.blk});
    vec![match guard(|| to_bits(&x.data, &BTreeMap::new())) {
        None => with(&e, json!({"out": "panic"})),
        Some(Err(r)) => with(&e, json!({"out": format!("err:{}", r)})),
        Some(Ok(b)) => with(&with(&e, encodings(&b)), json!({"out": sat(&b.cs)})),
    }]
}
fn bits_of(y: &[u8]) -> Vec<u8> {
    (0..8 * y.len()).map(|i| y[i / 8] >> (i % 8) & 1).collect()
}
fn hash(s: &Value, rng: &mut rand::rngs::StdRng) -> Vec<Value> {
    let x = sample(s, rng);
    let prev = us(s, "prev") as u16;
    let (inner, extra) = x.block.encode_inner_to_bytes_cip22().unwrap();
    let e = json!({"op": "hash", "blk": x.blk, "prev": prev.to_le_bytes().to_vec(), "gen": us(s, "hash") == 1, "natinner": inner, "natextra": extra,
        "natpt": enc1(&x.block.hash_to_g1_cip22().unwrap()), "natcrh": bits_of(&COMPOSITE_HASHER.crh(&[], &inner, 0).unwrap())});
    let r = guard(|| -> Result<Value> {
        let cs = ConstraintSystem::<Fq>::new_ref();
        let p = FpVar::new_witness(cs.clone(), || Ok(Fq::from(prev)))?;
        let k = x.data.constrain(&p, us(s, "hash") == 1)?;
        let pt: G1Projective = k.message_hash.value()?;
        Ok(json!({"out": sat(&cs), "pt": enc1(&pt), "crh": bools(&k.crh_bits), "xoflen": k.xof_bits.len(),
            "firstbits": bools(&k.combined_first_epoch_bits), "lastbits": bools(&k.combined_last_epoch_bits)}))
    });
    vec![match r {
        None => with(&e, json!({"out": "panic"})),
        Some(Err(r)) => with(&e, json!({"out": format!("err:{}", r)})),
        Some(Ok(v)) => with(&e, v),
    }]
}
pub fn var_of(f: &Flat<Fq>, l: &LinearCombination<Fq>) -> usize {
    f.lc(l)[0].1
}
fn forge(s: &Value, rng: &mut rand::rngs::StdRng, thorough: bool) -> Vec<Value> {
    let x = sample(s, rng);
    let honest = to_bits(&x.data, &BTreeMap::new()).unwrap();
    let f = Flat::of(&honest.cs);
    let w: Vec<Fq> = f.vals[f.ninst..].to_vec();
    let mut attacks: Vec<Attack> = vec![];
    for i in points_g2(&w) {
        attacks.extend(attacks_g2(&w, i, rng));
        // not a point at all
        for k in 0..4 {
            attacks.push(Attack { kind: "offcurve", what: format!("{}", k), over: vec![(i + k, Fq::rand(rng))].into_iter().collect() });
        }
    }
    // numbers that do not fit their encoding
    let o = &honest.out;
    for (v, width) in vec![(&o.4, 16u32), (&o.5, 128), (&o.6, 128), (&o.7, 32)] {
        let i = var_of(&f, &v.lc_()) - f.ninst;
        for m in &[1u64, 2, 5, 1 << 20] {
            let x = w[i] + Fq::from(*m) * Fq::from(2u64).pow(&[width as u64]);
            attacks.push(Attack { kind: "overflow", what: format!("{}:{}", width, m), over: vec![(i, x)].into_iter().collect() });
        }
        // and ones that do
        attacks.push(Attack { kind: "number", what: format!("{}", width), over: vec![(i, Fq::from(77u64))].into_iter().collect() });
    }
    // single bits, wherever they are
    let bw: Vec<usize> = f.boolean_witnesses();
    for _ in 0..(if thorough { 3000 } else { 150 }) {
        let v = bw[rng.gen_range(0, bw.len())];
        attacks.push(Attack { kind: "bit", what: format!("{}", v), over: vec![(v - f.ninst, Fq::one() - f.vals[v])].into_iter().collect() });
    }
    let mut tries = 0;
    let mut evs = vec![];
    for a in &attacks {
        tries += 1;
        if let Some(Ok(b)) = guard(|| to_bits(&x.data, &a.over)) {
            if sat(&b.cs) != "sat" {
                continue;
            }
            let mut blk = x.blk.clone();
            let num = |v: &FpVar<Fq>| le48(&v.value().unwrap());
            blk["index"] = json!(num(&b.out.4));
            blk["ee"] = json!(num(&b.out.5));
            blk["pe"] = json!(num(&b.out.6));
            blk["mns"] = json!(num(&b.out.7));
            blk["keys"] = json!(b.out.8.iter().map(|k| coords(&k.value().unwrap())).collect::<Vec<_>>());
            evs.push(with(&with(&encodings(&b), json!({"op": "forged", "attack": a.kind, "what": a.what})), json!({"blk": blk})));
        }
    }
    // the index rule: witnesses of `constrain` beyond those of `to_bits`
    let prev = us(s, "prev") as u16;
    let run = |over: &BTreeMap<usize, Fq>| {
        guard(|| -> Result<ConstraintSystemRef<Fq>> {
            let cs = system_with(over);
            let p = FpVar::new_witness(cs.clone(), || Ok(Fq::from(prev)))?;
            x.data.constrain(&p, false)?;
            Ok(cs)
        })
    };
    if let Some(Ok(cs)) = run(&BTreeMap::new()) {
        let g = Flat::of(&cs);
        let from = 1 + w.len();
        let mut cheats: Vec<BTreeMap<usize, Fq>> = vec![];
        let near: Vec<usize> = (from..(from + 8).min(g.vals.len() - g.ninst)).collect();
        for i in &near {
            let h = g.vals[g.ninst + i];
            for y in &[Fq::one() - h, Fq::zero(), Fq::one(), -h, Fq::rand(rng)] {
                cheats.push(vec![(*i, *y)].into_iter().collect());
                for j in near.iter().filter(|j| *j > i) {
                    for z in &[Fq::zero(), Fq::one(), Fq::rand(rng)] {
                        cheats.push(vec![(*i, *y), (*j, *z)].into_iter().collect());
                    }
                }
            }
        }
        for o in cheats.iter().take(if thorough { 600 } else { 80 }) {
            tries += 1;
            if let Some(Ok(cs)) = run(o) {
                if sat(&cs) == "sat" {
                    evs.push(json!({"op": "cheated", "blk": {"index": x.blk["index"]}, "prev": prev.to_le_bytes().to_vec(), "over": o.keys().collect::<Vec<_>>()}));
                }
            }
        }
        let fixed: BTreeSet<usize> = (0..g.ninst + from).collect();
        for v in near.iter().map(|i| g.ninst + i) {
            for y in &[Fq::one() - g.vals[v], Fq::rand(rng)] {
                for low in &[true, false] {
                    tries += 1;
                    if g.forge(&fixed, &[(v, *y)], *low, 2000).is_some() {
                        evs.push(json!({"op": "cheated", "blk": {"index": x.blk["index"]}, "prev": prev.to_le_bytes().to_vec(), "over": [v]}));
                    }
                }
            }
        }
    }
    evs.push(json!({"op": "tries", "n": tries}));
    evs
}
pub fn run(c: &mut Ctx) {
    let mut rng = c.rng(0xda7a);
    let jobs: Vec<(Value, u64)> = c.script.clone().into_iter().map(|s| (s, rng.gen())).collect();
    let th = c.thorough;
    for v in par_map(&jobs, |_, (s, seed)| {
        let mut rng = rand::rngs::StdRng::seed_from_u64(*seed);
        if s["forge"] == 1 { forge(s, &mut rng, th) } else if s["hash"] != 0 { hash(s, &mut rng) } else { data(s, &mut rng) }
    }) {
        for e in v {
            c.emit(e);
        }
    }
}
