//! hash_to_bits and HashToGroupGadget
use crate::bitmap::outcome;
use arkshim::curves::bls12_377::{Fq, Fr, G1Affine, Parameters};
use arkshim::ec::{AffineCurve, ProjectiveCurve};
use arkshim::ff::*;
use arkshim::gadgets::*;
use arkshim::r1cs::*;
use arkshim::serialize::CanonicalSerialize;
use bls_crypto::hash_to_curve::try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22;
use bls_crypto::hashers::{composite::COMPOSITE_HASHER, Hasher};
use bls_crypto::SIG_DOMAIN;
use bls_gadgets::{hash_to_bits, HashToGroupGadget};
use circutil::*;
use drvutil::*;
use rand::{Rng, RngCore, SeedableRng};
use std::collections::{BTreeMap, BTreeSet};

fn alloc_bits<F: PrimeField>(cs: &ConstraintSystemRef<F>, bits: &[bool], kind: &str) -> Vec<Boolean<F>> {
    bits.iter()
        .enumerate()
        .map(|(i, b)| match (kind, i % 4) {
            ("input", _) | ("mixed", 1) => Boolean::new_input(cs.clone(), || Ok(*b)).unwrap(),
            ("mixed", 2) => Boolean::constant(*b),
            ("mixed", 3) => Boolean::new_witness(cs.clone(), || Ok(!*b)).unwrap().not(),
            _ => Boolean::new_witness(cs.clone(), || Ok(*b)).unwrap(),
        })
        .collect()
}
fn vals<F: PrimeField>(b: &[Boolean<F>]) -> Vec<bool> {
    b.iter().map(|x| x.value().unwrap()).collect()
}
fn h2b<F: PrimeField>(msg: &[bool], kind: &str, len: u16, pers: [u8; 8], gen: bool) -> Value {
    match guard(|| -> Result<(String, Vec<bool>)> {
        let cs = ConstraintSystem::<F>::new_ref();
        let m = alloc_bits(&cs, msg, kind);
        let o = hash_to_bits(&m, len, pers, gen)?;
        Ok((outcome(Some(cs.is_satisfied())), vals(&o)))
    }) {
        None => json!(["panic", []]),
        Some(Err(e)) => json!([format!("err:{}", e), []]),
        Some(Ok((s, b))) => json!([s, bits(&b)]),
    }
}
pub fn enc(p: &G1Affine) -> String {
    let mut v = vec![];
    p.serialize(&mut v).unwrap();
    v.iter().map(|b| format!("{:02x}", b)).collect()
}
/// a fact: the two cofactor multiples of the points with this abscissa, smaller ordinate first ("" when there is none)
fn candidates(xof: &[bool]) -> Value {
    let x = &xof[..xof.len().min(377)];
    json!({"x": bits(x), "pts": cands(x)})
}
fn cands(x: &[bool]) -> Vec<String> {
    (0..2)
        .map(|s| {
            Fq::from_repr(<Fq as PrimeField>::BigInt::from_bits_le(x)).and_then(|x| G1Affine::get_point_from_x(x, s == 1)).map_or(String::new(), |p| enc(&p.mul_by_cofactor()))
        })
        .collect()
}
struct Circuit {
    cs: ConstraintSystemRef<Fq>,
    counter: UInt8<Fq>,
    message: Vec<UInt8<Fq>>,
    extra: Vec<UInt8<Fq>>,
    out: (G1Var<Parameters>, Vec<Boolean<Fq>>, Vec<Boolean<Fq>>),
}
fn circuit(counter: u8, message: &[u8], extra: &[u8], gen: bool, kind: &str, over: &BTreeMap<usize, Fq>) -> Result<Circuit> {
    let cs = system_with(over);
    let a = |v: u8, i: usize| -> UInt8<Fq> {
        match (kind, i % 3) {
            ("input", _) | ("mixed", 1) => UInt8::new_input(cs.clone(), || Ok(v)).unwrap(),
            ("mixed", 2) => UInt8::constant(v),
            _ => UInt8::new_witness(cs.clone(), || Ok(v)).unwrap(),
        }
    };
    let cv = a(counter, 0);
    let mv: Vec<_> = message.iter().enumerate().map(|(i, b)| a(*b, i)).collect();
    let ev: Vec<_> = extra.iter().enumerate().map(|(i, b)| a(*b, i)).collect();
    let out = HashToGroupGadget::<Parameters, Fq>::enforce_hash_to_group(cv.clone(), &mv, &ev, gen)?;
    Ok(Circuit { cs, counter: cv, message: mv, extra: ev, out })
}
#[cfg(feature = "compat")]
const X_SIGN: usize = 377;
#[cfg(not(feature = "compat"))]
const X_SIGN: usize = 383;
struct Case {
    msg: Vec<u8>,
    extra: Vec<u8>,
    delta: i64,
    gen: bool,
    kind: String,
    forge: bool,
    seed: u64,
}
fn crh_of(m: &[u8]) -> Vec<bool> {
    let h = COMPOSITE_HASHER.crh(&[], m, 0).unwrap();
    (0..8 * h.len()).map(|i| h[i / 8] >> (i % 8) & 1 == 1).collect()
}
fn native_xof(counter: u8, extra: &[u8], msg: &[u8]) -> Vec<bool> {
    let m = [&[counter], extra, &COMPOSITE_HASHER.crh(&[], msg, 0).unwrap()[..]].concat();
    let h = COMPOSITE_HASHER.xof(SIG_DOMAIN, &m, 64).unwrap();
    (0..512).map(|i| h[i / 8] >> (i % 8) & 1 == 1).collect()
}
fn case(c: &Case, thorough: bool) -> Vec<Value> {
    let native = COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(SIG_DOMAIN, &c.msg, &c.extra).ok();
    let attempt = native.as_ref().map_or(0, |n| n.1) as i64;
    let counter = (attempt + c.delta).max(0).min(254) as u8;
    let base = json!({"op": "htg", "counter": counter, "msg": c.msg, "extra": c.extra, "gen": c.gen as u8, "kind": c.kind,
        "native": {"attempt": attempt, "pt": native.map_or(String::new(), |n| enc(&n.0.into_affine()))}, "crhfact": bits(&crh_of(&c.msg)), "sign": X_SIGN,
        "cand": candidates(&native_xof(counter, &c.extra, &c.msg))});
    let with = |o: Value| -> Value {
        let mut b = base.clone();
        b.as_object_mut().unwrap().extend(o.as_object().unwrap().clone());
        b
    };
    let built = guard(|| circuit(counter, &c.msg, &c.extra, c.gen, &c.kind, &BTreeMap::new()));
    let k = match built {
        None => return vec![with(json!({"out": "panic"}))],
        Some(Err(e)) => return vec![with(json!({"out": format!("err:{}", e)}))],
        Some(Ok(k)) => k,
    };
    let xof = vals(&k.out.2);
    let mut evs = vec![with(json!({"out": outcome(Some(k.cs.is_satisfied())), "crh": bits(&vals(&k.out.1)), "xof": bits(&xof),
        "cand": candidates(&xof), "pt": enc(&k.out.0.value().unwrap().into_affine())}))];
    if !c.forge {
        return evs;
    }
    // dishonest provers
    let f = Flat::of(&k.cs);
    let mut fixed: BTreeSet<usize> = BTreeSet::new();
    let inb: Vec<&Boolean<Fq>> = k.counter.bits.iter().chain(k.message.iter().flat_map(|b| &b.bits)).chain(k.extra.iter().flat_map(|b| &b.bits)).collect();
    for b in inb {
        fixed.extend(f.lc(&b.lc()).iter().map(|t| t.1));
    }
    let bools: BTreeSet<usize> = f.boolean_witnesses().into_iter().collect();
    let units: Vec<usize> = (f.ninst..f.vals.len()).filter(|v| !bools.contains(v) && f.vals[*v].is_one()).collect();
    let mut rng = rand::rngs::StdRng::seed_from_u64(c.seed);
    let ev = |l: &LinearCombination<Fq>, a: &[Fq]| f.lc(l).iter().fold(Fq::zero(), |s, (c, v)| s + *c * a[*v]);
    let bv = |b: &[Boolean<Fq>], a: &[Fq]| -> Vec<u8> { b.iter().map(|x| ev(&x.lc(), a).is_one() as u8).collect() };
    let mut tries = 0;
    let mut hits: Vec<(Vec<Fq>, bool)> = vec![];
    let others: Vec<usize> = (f.ninst..f.vals.len()).filter(|v| !fixed.contains(v) && !units.contains(v)).collect();
    let mut fix2 = fixed.clone();
    fix2.extend(units.iter().cloned());
    let n = if thorough { 400 } else { 60 };
    for i in 0..n {
        // the allocated point, the signs and the compression come right after the hashes: try those densely
        let v = others[if i % 2 == 0 { rng.gen_range(0, others.len()) } else { (others.len() * i / n).min(others.len() - 1) }];
        let val = if bools.contains(&v) { Fq::one() - f.vals[v] } else if i % 3 == 0 { -f.vals[v] } else { Fq::rand(&mut rng) };
        for low in &[false, true] {
            tries += 1;
            if let Some(a) = f.forge(&fix2, &[(v, val)], *low, 60000) {
                hits.push((a, false));
            }
        }
    }
    // negate whatever is a coordinate of the point: every non-boolean witness with its sign bit
    for v in others.iter().filter(|v| !bools.contains(v)).take(if thorough { 400 } else { 40 }) {
        for b in bools.iter().filter(|b| **b > *v).take(3) {
            tries += 1;
            if let Some(a) = f.forge(&fix2, &[(*v, -f.vals[*v]), (*b, Fq::one() - f.vals[*b])], false, 60000) {
                hits.push((a, false));
            }
        }
    }
    let mut shown = 0;
    for (a, _) in hits {
        let xo = bv(&k.out.2, &a);
        let xb: Vec<bool> = xo[..xo.len().min(377)].iter().map(|b| *b == 1).collect();
        let p = &k.out.0;
        let pt = G1Var::<Parameters>::to_affine_value(ev(&p.x.lc_(), &a), ev(&p.y.lc_(), &a), ev(&p.z.lc_(), &a));
        shown += 1;
        if shown <= 40 {
            evs.push(with(json!({"op": "forged", "attack": "repair", "crh": bv(&k.out.1, &a), "xof": xo, "cand": candidates(&xb), "pt": enc(&pt)})));
        }
    }
    // the whole circuit is synthesised again from a dishonest point, or (without constraints) a dishonest XOF
    let w: Vec<Fq> = f.vals[f.ninst..].to_vec();
    let mut attacks = vec![];
    for i in points_g1(&w) {
        attacks.extend(attacks_g1(&w, i, 377, &mut rng));
    }
    for i in 0..(if c.gen { 4 } else { 12 }) {
        let mut over = BTreeMap::new();
        let mut h = xof.clone();
        match i % 4 {
            0 => h = h.iter().map(|_| rng.gen()).collect(),
            1 => h[X_SIGN] = !h[X_SIGN],
            2 => h[rng.gen_range(0, 376)] ^= true,
            _ => h[rng.gen_range(384, 512)] ^= true,
        }
        for (b, v) in k.out.2.iter().zip(&h) {
            for (_, u) in f.lc(&b.lc()) {
                if u >= f.ninst && !fixed.contains(&u) {
                    over.insert(u - f.ninst, if *v { Fq::one() } else { Fq::zero() });
                }
            }
        }
        attacks.push(Attack { kind: "xof", what: format!("{}", i), over });
    }
    for at in attacks {
        tries += 1;
        if let Some(Ok(k)) = guard(|| circuit(counter, &c.msg, &c.extra, c.gen, &c.kind, &at.over)) {
            if !matches!(k.cs.is_satisfied(), Ok(true)) {
                continue;
            }
            let xof = vals(&k.out.2);
            evs.push(with(json!({"op": "forged", "attack": at.kind, "what": at.what, "crh": bits(&vals(&k.out.1)), "xof": bits(&xof), "cand": candidates(&xof),
                "pt": enc(&k.out.0.value().unwrap().into_affine())})));
        }
    }
    evs.push(json!({"op": "tries", "n": tries}));
    evs
}
pub fn run(c: &mut Ctx) {
    let mut rng = c.rng(0x477);
    let mut cases = vec![];
    let mut evs = vec![];
    for s in c.script.clone() {
        if s["op"] == "h2b" {
            let n = us(&s, "len");
            let msg: Vec<bool> = (0..n).map(|i| match st(&s, "fill") { "zero" => false, "one" => true, "last" => i + 1 == n, _ => rng.gen() }).collect();
            let mut pers = [0u8; 8];
            if s["pers"] == "sig" { pers.copy_from_slice(SIG_DOMAIN) } else { rng.fill_bytes(&mut pers) }
            let (hl, gen, kind) = (us(&s, "hash") as u16, us(&s, "gen") == 1, st(&s, "kind").to_string());
            let fr = s["field"] == "fr";
            let r = if fr { h2b::<Fr>(&msg, &kind, hl, pers, gen) } else { h2b::<Fq>(&msg, &kind, hl, pers, gen) };
            evs.push(json!({"op": "h2b", "field": s["field"], "msg": bits(&msg), "hash": hl, "pers": pers.to_vec(), "gen": gen as u8, "kind": kind, "out": r[0], "xof": r[1]}));
        } else {
            let mut msg = vec![0; us(&s, "msg")];
            rng.fill_bytes(&mut msg);
            let mut extra = vec![0; us(&s, "extra")];
            rng.fill_bytes(&mut extra);
            cases.push(Case { msg, extra, delta: s["delta"].as_i64().unwrap(), gen: us(&s, "gen") == 1, kind: st(&s, "kind").to_string(), forge: us(&s, "forge") == 1, seed: rng.gen() });
        }
    }
    let th = c.thorough;
    for v in par_map(&cases, |_, k| case(k, th)) {
        evs.extend(v);
    }
    for e in evs {
        c.emit(e);
    }
}
