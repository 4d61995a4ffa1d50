//! BlsVerifyGadget: keys, hashes and signatures are small multiples of the generators
use crate::bitmap::outcome;
use arkshim::curves::bls12_377::{Bls12_377, Fq, Fq2, Fr, G1Projective, G2Projective};
use arkshim::ec::ProjectiveCurve;
use arkshim::ff::*;
use arkshim::gadgets::bls12_377::{G1Var, G2Var, PairingVar};
use arkshim::gadgets::*;
use arkshim::r1cs::*;
use bls_gadgets::BlsVerifyGadget;
use circutil::*;
use drvutil::*;
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet};

type G = BlsVerifyGadget<Bls12_377, Fq, PairingVar>;
const BOUND: i64 = 400;

fn fr(k: i64) -> Fr {
    if k < 0 { -Fr::from((-k) as u64) } else { Fr::from(k as u64) }
}
fn g1(k: i64) -> G1Projective {
    G1Projective::prime_subgroup_generator().mul(fr(k).into_repr())
}
fn g2(k: i64) -> G2Projective {
    G2Projective::prime_subgroup_generator().mul(fr(k).into_repr())
}
/// the small multiple a point is (a fact), BOUND + 1 for any other
fn log2(p: &G2Projective) -> i64 {
    let (mut a, mut b, g) = (G2Projective::zero(), G2Projective::zero(), G2Projective::prime_subgroup_generator());
    for k in 0..=BOUND {
        if a == *p {
            return k;
        }
        if b == *p {
            return -k;
        }
        a += &g;
        b -= &g;
    }
    BOUND + 1
}
fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}
fn mode(kind: &str, i: usize) -> AllocationMode {
    match (kind, i % 3) {
        ("input", _) | ("mixed", 1) => AllocationMode::Input,
        ("mixed", 2) => AllocationMode::Constant,
        _ => AllocationMode::Witness,
    }
}
struct Env {
    cs: ConstraintSystemRef<Fq>,
    kind: String,
    n: usize,
    inputs: Vec<LinearCombination<Fq>>,
}
impl Env {
    fn new(kind: &str, over: &BTreeMap<usize, Fq>) -> Self {
        Env { cs: system_with(over), kind: kind.into(), n: 0, inputs: vec![] }
    }
    fn g1(&mut self, k: i64) -> Result<G1Var> {
        self.n += 1;
        let p = G1Var::new_variable_omit_prime_order_check(self.cs.clone(), || Ok(g1(k)), mode(&self.kind, self.n))?;
        self.inputs.extend(vec![p.x.lc_(), p.y.lc_(), p.z.lc_()]);
        Ok(p)
    }
    fn g2(&mut self, k: i64) -> Result<G2Var> {
        self.n += 1;
        let p = if self.kind == "scaled" && k != 0 {
            // another representative of the same point
            let a = g2(k).into_affine();
            let z = Fq2::new(Fq::from(3 + self.n as u64), Fq::from(7u64));
            let v = |x: Fq2| Fp2Var::new_witness(self.cs.clone(), || Ok(x));
            ProjectiveVar::new(v(a.x * z)?, v(a.y * z)?, v(z)?)
        } else {
            G2Var::new_variable_omit_prime_order_check(self.cs.clone(), || Ok(g2(k)), mode(&self.kind, self.n))?
        };
        for c in vec![&p.x, &p.y, &p.z] {
            self.inputs.extend(vec![c.c0.lc_(), c.c1.lc_()]);
        }
        Ok(p)
    }
    fn bit(&mut self, b: bool) -> Result<Boolean<Fq>> {
        self.n += 1;
        let b = Boolean::new_variable(self.cs.clone(), || Ok(b), mode(&self.kind, self.n))?;
        self.inputs.push(b.lc());
        Ok(b)
    }
    fn max(&mut self, m: u64) -> Result<FpVar<Fq>> {
        self.n += 1;
        let m = FpVar::new_variable(self.cs.clone(), || Ok(Fq::from(m)), if self.kind == "mixed" { AllocationMode::Witness } else { mode(&self.kind, self.n) })?;
        self.inputs.push(m.lc_());
        Ok(m)
    }
}
struct Built {
    cs: ConstraintSystemRef<Fq>,
    inputs: Vec<LinearCombination<Fq>>,
    agg: Option<G2Var>,
}
fn build(s: &Value, over: &BTreeMap<usize, Fq>) -> Result<Built> {
    let mut e = Env::new(st(s, "kind"), over);
    let (keys, op) = (ints(&s["keys"]), st(s, "op"));
    let agg = match op {
        "verify" | "agg" | "bitmap" => {
            let h = if op == "agg" { None } else { Some(e.g1(s["h"].as_i64().unwrap())?) };
            let ks = keys.iter().map(|k| e.g2(*k)).collect::<Result<Vec<_>>>()?;
            let bs = ints(&s["bits"]).iter().map(|b| e.bit(*b == 1)).collect::<Result<Vec<_>>>()?;
            let pad = e.g2(s["pad"].as_i64().unwrap())?;
            match op {
                "verify" => {
                    let sig = e.g1(s["sig"].as_i64().unwrap())?;
                    let max = e.max(us(s, "max") as u64)?;
                    G::verify(&ks, &bs, &h.unwrap(), &sig, &max, &pad)?;
                    None
                }
                "bitmap" => {
                    let max = e.max(us(s, "max") as u64)?;
                    Some(G::enforce_bitmap(&ks, &bs, &h.unwrap(), &max, &pad)?.1)
                }
                _ => Some(G::enforce_aggregated_pubkeys(&ks, &bs, &pad)?),
            }
        }
        "all" => {
            let ks = keys.iter().map(|k| e.g2(*k)).collect::<Result<Vec<_>>>()?;
            Some(G::enforce_aggregated_all_pubkeys(&ks)?)
        }
        "batch" | "batchprep" => {
            let ks = keys.iter().map(|k| e.g2(*k)).collect::<Result<Vec<_>>>()?;
            let hs = ints(&s["hs"]).iter().map(|k| e.g1(*k)).collect::<Result<Vec<_>>>()?;
            let sig = e.g1(s["sig"].as_i64().unwrap())?;
            if op == "batch" {
                G::batch_verify(&ks, &hs, &sig)?
            } else {
                use arkshim::gadgets::PairingVar as _;
                let k = ks.iter().map(|k| PairingVar::prepare_g2(k)).collect::<Result<Vec<_>>>()?;
                let h = hs.iter().map(|k| PairingVar::prepare_g1(k)).collect::<Result<Vec<_>>>()?;
                G::batch_verify_prepared(&k, &h, &sig)?
            }
            None
        }
        x => panic!("op {}", x),
    };
    Ok(Built { cs: e.cs, inputs: e.inputs, agg })
}
fn verdict(b: &Built) -> String {
    // nothing but constants leaves nothing to satisfy
    if b.cs.num_constraints() == 0 { "sat".into() } else { outcome(Some(b.cs.is_satisfied())) }
}
fn with(s: &Value, o: Value) -> Value {
    let mut b = s.clone();
    b.as_object_mut().unwrap().extend(o.as_object().unwrap().clone());
    b
}
fn agg_of(b: &Built) -> i64 {
    b.agg.as_ref().map_or(0, |p| log2(&p.value().unwrap()))
}
fn case(s: &Value, seed: u64, thorough: bool) -> Vec<Value> {
    let b = match guard(|| build(s, &BTreeMap::new())) {
        None => return vec![with(s, json!({"out": "panic", "agg": 0}))],
        Some(Err(e)) => return vec![with(s, json!({"out": format!("err:{}", e), "agg": 0}))],
        Some(Ok(b)) => b,
    };
    let out = guard(|| verdict(&b)).unwrap_or_else(|| "panic".into());
    let mut evs = vec![with(s, json!({"out": out, "agg": agg_of(&b)}))];
    if s["forge"] != 1 {
        return evs;
    }
    let f = Flat::of(&b.cs);
    let fixed: BTreeSet<usize> = b.inputs.iter().flat_map(|l| f.lc(l)).map(|t| t.1).collect();
    let own: Vec<usize> = (f.ninst..f.vals.len()).filter(|v| !fixed.contains(v)).collect();
    let mut rng = rand_xorshift(seed);
    let (mut tries, mut hits) = (0, BTreeMap::<i64, usize>::new());
    // one dishonest value, everything after it computed from it
    for v in &own {
        let h = f.vals[*v];
        for x in &[Fq::one() - h, -h, Fq::rand(&mut rng)] {
            if *x == h || (!thorough && rng.gen_bool(0.5)) {
                continue;
            }
            tries += 1;
            let over = vec![(*v - f.ninst, *x)].into_iter().collect();
            if let Some(Ok(k)) = guard(|| build(s, &over)) {
                if guard(|| verdict(&k)).map_or(false, |v| v == "sat") {
                    *hits.entry(agg_of(&k)).or_default() += 1;
                }
            }
        }
    }
    // one dishonest value, the rest repaired
    for i in 0..(if thorough { 400 } else { 60 }) {
        if own.is_empty() {
            break;
        }
        let v = own[rng.gen_range(0, own.len())];
        let x = match i % 3 { 0 => Fq::one() - f.vals[v], 1 => -f.vals[v], _ => Fq::rand(&mut rng) };
        tries += 1;
        if let Some(a) = f.forge(&fixed, &[(v, x)], i % 2 == 0, 4000) {
            let ev = |l: &LinearCombination<Fq>| f.lc(l).iter().fold(Fq::zero(), |s, (c, v)| s + *c * a[*v]);
            let g = b.agg.as_ref().map_or(0, |p| {
                let q = |c: &Fp2Var<_>| Fq2::new(ev(&c.c0.lc_()), ev(&c.c1.lc_()));
                log2(&G2Var::to_affine_value(q(&p.x), q(&p.y), q(&p.z)).into())
            });
            *hits.entry(g).or_default() += 1;
        }
    }
    for (g, n) in hits {
        evs.push(with(s, json!({"out": "sat", "agg": g, "forged": n})));
    }
    evs.push(json!({"op": "tries", "n": tries}));
    evs
}
fn rand_xorshift(seed: u64) -> rand::rngs::StdRng {
    rand::SeedableRng::seed_from_u64(seed)
}
pub fn run(c: &mut Ctx) {
    let mut rng = c.rng(0xb15);
    let cases: Vec<(Value, u64)> = c.script.clone().into_iter().map(|s| (s, rng.gen())).collect();
    let th = c.thorough;
    for v in par_map(&cases, |_, k| case(&k.0, k.1, th)) {
        for e in v {
            c.emit(e);
        }
    }
}
