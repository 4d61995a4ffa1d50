//! ValidatorSetUpdate: whole chains of epochs on the real circuit
use crate::common::*;
use crate::data::with;
use arkshim::curves::bls12_377::{Bls12_377, Fq, Fr, G1Projective, G2Projective};
use arkshim::ec::ProjectiveCurve;
use arkshim::ff::*;
use arkshim::r1cs::*;
use bls_crypto::PublicKey;
use circutil::*;
use drvutil::*;
use epoch_snark::{verif_hooks::*, EpochBlock};
use rand::{Rng, SeedableRng};
use std::collections::{BTreeMap, BTreeSet};

pub fn fr(k: i64) -> Fr {
    if k < 0 { -Fr::from((-k) as u64) } else { Fr::from(k as u64) }
}
pub fn g2(k: i64) -> G2Projective {
    G2Projective::prime_subgroup_generator().mul(fr(k).into_repr())
}
fn g1(k: i64) -> G1Projective {
    G1Projective::prime_subgroup_generator().mul(fr(k).into_repr())
}
pub fn int(v: &Value) -> i64 {
    v.as_i64().unwrap()
}
pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(int).collect()
}
/// a key's small multiple, or a code no small multiple has
fn log2(p: &G2Projective) -> i64 {
    let (mut a, mut b, g) = (G2Projective::zero(), G2Projective::zero(), G2Projective::prime_subgroup_generator());
    for k in 0..=64 {
        if a == *p {
            return k;
        }
        if b == *p {
            return -k;
        }
        a += &g;
        b -= &g;
    }
    let c = be(&p.into_affine().x.c0);
    1_000_000 + c[340..365].iter().fold(0i64, |a, b| 2 * a + *b as i64)
}
/// 0: absent, 9: present and zero
pub fn ent(k: i64) -> Option<Vec<u8>> {
    match k {
        0 => None,
        9 => Some(vec![0; 16]),
        k => {
            let mut v = vec![0u8; 16];
            v[(k as usize * 5) % 16] = k as u8;
            v[15] = 200;
            Some(v)
        }
    }
}
pub fn keys_of(b: &Value) -> Vec<G2Projective> {
    // from wire or from sums, keys come in all coordinates
    ints(&b["keys"]).iter().map(|k| g2(*k)).collect()
}
pub fn block_of(b: &Value) -> EpochBlock {
    let ks = keys_of(b);
    EpochBlock::new(us(b, "index") as u16, us(b, "round") as u8, ent(int(&b["ee"])), ent(int(&b["pe"])), us(b, "mns") as u32, ks.len(), ks.into_iter().map(PublicKey::from).collect())
}
fn data_of(b: &Value) -> EpochData<Bls12_377> {
    EpochData {
        index: Some(us(b, "index") as u16),
        round: Some(us(b, "round") as u8),
        epoch_entropy: ent(int(&b["ee"])),
        parent_entropy: ent(int(&b["pe"])),
        maximum_non_signers: us(b, "mns") as u32,
        public_keys: keys_of(b).into_iter().map(Some).collect(),
    }
}
/// the block's hash, whatever its encoding
fn msg(b: &Value) -> G1Projective {
    block_of(b).hash_to_g1_cip22().unwrap()
}
pub fn asig(s: &Value) -> G1Projective {
    let mut r = g1(int(&s["sig"]["gen"])) + g1(1009 * int(&s["sig"]["junk"]));
    for (u, k) in s["ups"].as_array().unwrap().iter().zip(ints(&s["sig"]["coef"])) {
        if k != 0 {
            r += msg(&u["b"]).mul(fr(k).into_repr());
        }
    }
    r
}
fn build(s: &Value, sig: &G1Projective, over: &BTreeMap<usize, Fq>) -> Result<ConstraintSystemRef<Fq>> {
    let v = ValidatorSetUpdate::<Bls12_377> {
        initial_epoch: data_of(&s["first"]),
        num_validators: s["first"]["keys"].as_array().unwrap().len() as u32,
        epochs: s["ups"].as_array().unwrap().iter().map(|u| SingleUpdate { epoch_data: data_of(&u["b"]), signed_bitmap: ints(&u["bits"]).iter().map(|b| Some(*b == 1)).collect() }).collect(),
        aggregated_signature: Some(*sig),
        hash_helper: None,
    };
    let cs = system_with(over);
    v.generate_constraints(cs.clone())?;
    Ok(cs)
}
fn verdict(r: &Option<Result<ConstraintSystemRef<Fq>>>) -> String {
    match r {
        None => "panic".into(),
        Some(Err(e)) => format!("err:{}", e),
        Some(Ok(cs)) => match guard(|| cs.is_satisfied()) {
            Some(Ok(true)) => "sat".into(),
            Some(Ok(false)) => "unsat".into(),
            Some(Err(e)) => format!("err:{}", e),
            None => "panic".into(),
        },
    }
}
/// public inputs, least significant bit first
pub fn inputs(cs: &ConstraintSystemRef<Fq>) -> Vec<Vec<u8>> {
    cs.borrow().unwrap().instance_assignment[1..].iter().map(le).collect()
}
pub fn le(x: &Fq) -> Vec<u8> {
    let mut b = be(x);
    b.reverse();
    b
}
/// a block as the encodings see it
pub fn blk_of(b: &Value) -> Value {
    let ks = keys_of(b);
    facts(&(us(b, "index") as u64), us(b, "round"), us(b, "mns") as u64, ent(int(&b["ee"])).unwrap_or_default(), ent(int(&b["pe"])).unwrap_or_default(), &ks)
}
fn facts(index: &u64, round: usize, mns: u64, ee: Vec<u8>, pe: Vec<u8>, ks: &[G2Projective]) -> Value {
    let sum = ks.iter().fold(G2Projective::zero(), |a, p| a + p);
    json!({"index": (*index as u16).to_le_bytes().to_vec(), "round": [round], "mns": (mns as u32).to_le_bytes().to_vec(), "maxv": ks.len(), "ee": ee, "pe": pe,
        "keys": ks.iter().map(coords).collect::<Vec<_>>(), "pad": coords(&G2Projective::prime_subgroup_generator()), "agg": if sum.is_zero() { json!({}) } else { coords(&sum) }})
}
fn ends(s: &Value) -> Value {
    match s["ups"].as_array().unwrap().last() {
        Some(u) => json!({"firstblk": blk_of(&s["first"]), "lastblk": blk_of(&u["b"])}),
        None => json!({}),
    }
}
fn chain(s: &Value) -> Vec<Value> {
    let sig = asig(s);
    let r = guard(|| build(s, &sig, &BTreeMap::new()));
    let out = verdict(&r);
    let mut e = with(s, json!({"out": out}));
    if out == "sat" {
        e = with(&with(&e, ends(s)), json!({"inst": inputs(&r.unwrap().unwrap())}));
    }
    vec![e]
}

// ------------------------------------------------------------------------------------ dishonest provers
/// where a field of a block was allocated: the first witness that changes when the field does
fn first_diff(a: &[Fq], b: &[Fq]) -> Option<usize> {
    (0..a.len().min(b.len())).find(|i| a[*i] != b[*i])
}
fn witnesses(cs: &ConstraintSystemRef<Fq>) -> Vec<Fq> {
    cs.borrow().unwrap().witness_assignment.clone()
}
struct Place {
    path: Vec<String>,
    at: usize,
    width: u32,
}
fn get<'a>(s: &'a Value, p: &[String]) -> &'a Value {
    p.iter().fold(s, |v, k| k.parse::<usize>().map(|i| &v[i]).unwrap_or_else(|_| &v[k]))
}
fn put(s: &mut Value, p: &[String], x: Value) {
    let v = p.iter().fold(s, |v, k| match k.parse::<usize>() {
        Ok(i) => &mut v[i],
        Err(_) => &mut v[k.as_str()],
    });
    *v = x;
}
fn entn(k: i64) -> Fq {
    ent(k).unwrap_or_default().iter().rev().fold(Fq::zero(), |a, b| a * Fq::from(256u64) + Fq::from(*b as u64))
}
fn ent_code(x: &Fq) -> i64 {
    if x.is_zero() {
        return 9;
    }
    (1..9).find(|k| entn(*k) == *x).unwrap_or_else(|| 1000 + x.into_repr().to_bits_le()[..24].iter().rev().fold(0, |a, b| 2 * a + *b as i64))
}
fn small_of(x: &Fq) -> Option<u64> {
    let b = x.into_repr().to_bits_le();
    if b[40..].iter().any(|b| *b) { None } else { Some(b[..40].iter().rev().fold(0, |a, b| 2 * a + *b as u64)) }
}
fn forge(s: &Value, rng: &mut rand::rngs::StdRng, thorough: bool) -> Vec<Value> {
    let sig = asig(s);
    let base = match guard(|| build(s, &sig, &BTreeMap::new())) {
        Some(Ok(b)) => b,
        _ => return vec![],
    };
    let w = witnesses(&base);
    // where everything is
    let mut places: Vec<Place> = vec![];
    let n = s["first"]["keys"].as_array().unwrap().len();
    let m = s["ups"].as_array().unwrap().len();
    let mut blocks: Vec<Vec<String>> = vec![vec!["first".into()]];
    blocks.extend((0..m).map(|i| vec!["ups".to_string(), i.to_string(), "b".into()]));
    let mut lost = 0;
    for b in &blocks {
        for f in &["index", "round", "mns", "ee", "pe"] {
            let mut p = b.clone();
            p.push(f.to_string());
            let h = int(get(s, &p));
            let mut t = s.clone();
            put(&mut t, &p, json!(if *f == "ee" || *f == "pe" { (h % 5) + 3 + (h == 0) as i64 } else { (h + 1) % 65536 }));
            let want = if *f == "ee" || *f == "pe" { entn(h) } else { Fq::from(h as u64) };
            match guard(|| build(&t, &sig, &BTreeMap::new())) {
                Some(Ok(o)) => match first_diff(&w, &witnesses(&o)) {
                    Some(at) if w[at] == want => places.push(Place { path: p, at, width: match *f { "index" => 16, "round" => 8, "mns" => 32, _ => 128 } }),
                    _ => lost += 1,
                },
                _ => lost += 1,
            }
        }
        for j in 0..n {
            let mut p = b.clone();
            p.extend(vec!["keys".to_string(), j.to_string()]);
            let mut t = s.clone();
            put(&mut t, &p, json!(31));
            match guard(|| build(&t, &sig, &BTreeMap::new())) {
                Some(Ok(o)) => match first_diff(&w, &witnesses(&o)) {
                    Some(at) if points_g2(&w[at..at + 6]).len() == 1 => places.push(Place { path: p, at, width: 0 }),
                    _ => lost += 1,
                },
                _ => lost += 1,
            }
        }
    }
    for i in 0..m {
        for j in 0..n {
            let p = vec!["ups".to_string(), i.to_string(), "bits".into(), j.to_string()];
            let mut t = s.clone();
            put(&mut t, &p, json!(1 - int(get(s, &p))));
            match guard(|| build(&t, &sig, &BTreeMap::new())) {
                Some(Ok(o)) => match first_diff(&w, &witnesses(&o)) {
                    Some(at) if w[at].is_zero() || w[at].is_one() => places.push(Place { path: p, at, width: 1 }),
                    _ => lost += 1,
                },
                _ => lost += 1,
            }
        }
    }
    if lost > 0 {
        // the circuit allocates something else than its inputs: nothing can be told about what a prover chose
        return vec![json!({"op": "tries", "n": 0, "lost": lost})];
    }
    let sig_at = guard(|| build(s, &(sig + G1Projective::prime_subgroup_generator()), &BTreeMap::new())).and_then(|r| r.ok()).and_then(|o| first_diff(&w, &witnesses(&o)));
    // what a prover might try
    let f = Flat::of(&base);
    let mut attacks: Vec<Attack> = vec![];
    let mut one = |kind: &'static str, what: String, at: usize, x: Fq| attacks.push(Attack { kind, what, over: vec![(at, x)].into_iter().collect() });
    for p in places.iter().filter(|p| p.width > 0) {
        let h = w[p.at];
        let what = p.path.join(".");
        if p.width == 1 {
            for x in vec![Fq::one() - h, Fq::from(2u64), -Fq::one()] {
                one("bitmap", what.clone(), p.at, x);
            }
            continue;
        }
        one("wide", what.clone(), p.at, h + Fq::from(2u64).pow(&[p.width as u64]));
        one("wide", what.clone(), p.at, Fq::from(2u64).pow(&[p.width as u64]));
        one("minus", what.clone(), p.at, -Fq::one());
        for x in &[0u64, 1, 2] {
            one("number", what.clone(), p.at, Fq::from(*x));
        }
        one("number", what.clone(), p.at, h + Fq::one());
    }
    for i in points_g2(&w) {
        attacks.extend(attacks_g2(&w, i, rng));
    }
    for i in points_g1(&w) {
        attacks.extend(attacks_g1(&w, i, 0, rng));
    }
    let placed: BTreeSet<usize> = places.iter().flat_map(|p| if p.width == 0 { p.at..p.at + 6 } else { p.at..p.at + 1 }).collect();
    // flags: booleans that are not part of a decomposition, with the helper values beside them
    let bw: BTreeSet<usize> = f.boolean_witnesses().into_iter().map(|v| v - f.ninst).collect();
    for b in bw.iter().filter(|b| !placed.contains(b) && !(bw.contains(&(**b + 1)) && bw.contains(&(b.wrapping_sub(1))))) {
        let h = w[*b];
        attacks.push(Attack { kind: "flag", what: b.to_string(), over: vec![(*b, Fq::one() - h)].into_iter().collect() });
        for near in vec![b.wrapping_sub(1), *b + 1] {
            if near < w.len() && !placed.contains(&near) {
                for x in vec![Fq::zero(), Fq::one(), Fq::rand(rng)] {
                    attacks.push(Attack { kind: "flag+", what: b.to_string(), over: vec![(*b, Fq::one() - h), (near, x)].into_iter().collect() });
                }
            }
        }
    }
    for _ in 0..(if thorough { 600 } else { 40 }) {
        let i = rng.gen_range(0, w.len());
        let x = match rng.gen_range(0, 3) { 0 => Fq::one() - w[i], 1 => -w[i], _ => Fq::rand(rng) };
        attacks.push(Attack { kind: "any", what: i.to_string(), over: vec![(i, x)].into_iter().collect() });
    }
    // two choices at once
    let na = attacks.len();
    for _ in 0..(if thorough { 400 } else { 30 }) {
        let (a, b) = (attacks[rng.gen_range(0, na)].clone(), attacks[rng.gen_range(0, na)].clone());
        attacks.push(Attack { kind: "two", what: format!("{} {} {} {}", a.kind, a.what, b.kind, b.what), over: a.over.into_iter().chain(b.over).collect() });
    }
    let mut tries = 0;
    let mut evs = vec![];
    for a in &attacks {
        tries += 1;
        let r = guard(|| build(s, &sig, &a.over));
        if verdict(&r) != "sat" {
            continue;
        }
        let cs = r.unwrap().unwrap();
        let v = witnesses(&cs);
        // the chain this prover claims
        let mut t = s.clone();
        let mut blk: BTreeMap<Vec<String>, (Vec<G2Projective>, bool)> = BTreeMap::new();
        let mut wide = 0;
        for p in &places {
            let b: Vec<String> = p.path[..if p.path[0] == "first" { 1 } else { 3 }].to_vec();
            let fld = p.path.iter().rev().find(|k| k.parse::<usize>().is_err()).unwrap().clone();
            let changed = if p.width == 0 { v[p.at..p.at + 6] != w[p.at..p.at + 6] } else { v[p.at] != w[p.at] };
            if fld != "bits" {
                let e = blk.entry(b.clone()).or_insert((vec![], false));
                e.1 |= changed;
                if p.width == 0 {
                    let c: Vec<Fq> = v[p.at..p.at + 6].to_vec();
                    use arkshim::curves::bls12_377::Fq2;
                    let (x, y, z) = (Fq2::new(c[0], c[1]), Fq2::new(c[2], c[3]), Fq2::new(c[4], c[5]));
                    let q: G2Projective = arkshim::gadgets::bls12_377::G2Var::to_affine_value(x, y, z).into();
                    e.0.push(q);
                    if changed {
                        put(&mut t, &p.path, json!(log2(&q)));
                    }
                    continue;
                }
            }
            if changed {
                let x = v[p.at];
                if x.into_repr().to_bits_le()[p.width as usize..].iter().any(|b| *b) {
                    wide += 1;
                } else if fld == "ee" || fld == "pe" {
                    put(&mut t, &p.path, json!(ent_code(&x)));
                } else {
                    put(&mut t, &p.path, json!(small_of(&x).unwrap() as i64));
                }
            }
        }
        // signatures are on the blocks as they were
        for i in 0..m {
            let b = vec!["ups".to_string(), i.to_string(), "b".into()];
            if blk[&b].1 && int(&t["sig"]["coef"][i]) != 0 {
                t["sig"]["coef"][i] = json!(0);
                t["sig"]["junk"] = json!(1);
            }
        }
        if let Some(at) = sig_at {
            if v[at..at + 2] != w[at..at + 2] {
                let z = v[at + 2];
                if let Some(zi) = z.inverse() {
                    if v[at] * zi != w[at] || v[at + 1] * zi != w[at + 1] {
                        t["sig"]["junk"] = json!(1);
                    }
                }
            }
        }
        let num = |p: &[String], f: &str| { let mut q = p.to_vec(); q.push(f.into()); let at = places.iter().find(|x| x.path == q).unwrap().at; v[at] };
        let fact = |b: &Vec<String>| {
            let by = |x: Fq| x.into_repr().to_bits_le()[..128].chunks(8).map(|c| c.iter().enumerate().map(|(i, b)| (*b as u8) << i).sum()).collect::<Vec<u8>>();
            facts(&small_of(&num(b, "index")).unwrap_or(0), small_of(&num(b, "round")).unwrap_or(0) as usize, small_of(&num(b, "mns")).unwrap_or(0), by(num(b, "ee")), by(num(b, "pe")), &blk[b].0)
        };
        evs.push(with(&t, json!({"op": "forged", "attack": a.kind, "what": a.what, "wide": wide, "firstblk": fact(&blocks[0]), "lastblk": fact(blocks.last().unwrap()), "inst": inputs(&cs)})));
    }
    evs.push(json!({"op": "tries", "n": tries, "lost": 0}));
    evs
}
pub fn run(c: &mut Ctx) {
    let mut rng = c.rng(0xc4a1);
    let mut jobs: Vec<(Value, u64)> = c.script.clone().into_iter().map(|s| (s, rng.gen())).collect();
    jobs.sort_by_key(|j| std::cmp::Reverse(us(&j.0, "forge")));
    let th = c.thorough;
    for v in par_map(&jobs, |_, (s, seed)| {
        let mut rng = rand::rngs::StdRng::seed_from_u64(*seed);
        if s["forge"] == 1 { forge(s, &mut rng, th) } else { chain(s) }
    }) {
        for e in v {
            c.emit(e);
        }
    }
}
