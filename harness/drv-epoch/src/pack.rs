//! Packing bits into field elements, natively and in circuits, and the hash circuits publishing them
use arkshim::curves::bls12_377::{Fq, FqParameters, Fr, FrParameters};
use arkshim::ff::*;
use arkshim::gadgets::*;
use arkshim::r1cs::*;
use circutil::*;
use drvutil::*;
use epoch_snark::verif_hooks::*;
use rand::{Rng, SeedableRng};
use std::collections::{BTreeMap, BTreeSet};

fn pattern(p: &str, n: usize, rng: &mut impl Rng) -> Vec<bool> {
    (0..n)
        .map(|i| match p {
            "zeros" => false,
            "ones" => true,
            "first" => i == 0,
            "last" => i + 1 == n,
            _ => rng.gen(),
        })
        .collect()
}
fn lebits<F: PrimeField>(x: &F) -> Vec<u8> {
    x.into_repr().to_bits_le()[..F::size_in_bits()].iter().map(|b| *b as u8).collect()
}
fn instance<F: PrimeField>(cs: &ConstraintSystemRef<F>, skip: usize) -> Vec<Vec<u8>> {
    cs.borrow().unwrap().instance_assignment[1 + skip..].iter().map(lebits).collect()
}
fn native<F: PrimeField, P: FpParameters>(field: &str, bits: &[bool]) -> Value {
    let r = guard(|| pack::<F, P>(bits));
    let (out, elems) = match r {
        None => ("panic".to_string(), vec![]),
        Some(Err(e)) => (format!("err:{}", e), vec![]),
        Some(Ok(v)) => ("ok".into(), v.iter().map(lebits).collect::<Vec<_>>()),
    };
    json!({"op": "native", "field": field, "bits": drvutil::bits(bits), "out": out, "elems": elems})
}
struct Built<F: PrimeField> {
    cs: ConstraintSystemRef<F>,
    bits: Vec<Boolean<F>>,
    packed: Vec<FpVar<F>>,
}
/// kinds: 0 witness, 1 negated witness, 2 constant
fn build<F: PrimeField, P: FpParameters>(bits: &[bool], kinds: &[u8], size: usize, input: bool, over: &BTreeMap<usize, F>) -> Result<Built<F>> {
    let cs = system_with(over);
    let bv = bits
        .iter()
        .zip(kinds)
        .map(|(b, k)| match k {
            0 => Boolean::new_witness(cs.clone(), || Ok(*b)),
            1 => Boolean::new_witness(cs.clone(), || Ok(!*b)).map(|x| x.not()),
            _ => Ok(Boolean::constant(*b)),
        })
        .collect::<Result<Vec<_>>>()?;
    let packed = MultipackGadget::pack::<F, P>(&bv, size, input)?;
    Ok(Built { cs, bits: bv, packed })
}
fn verdict<F: PrimeField>(r: Option<Result<ConstraintSystemRef<F>>>) -> String {
    match r {
        None => "panic".into(),
        Some(Err(e)) => format!("err:{}", e),
        Some(Ok(cs)) => match guard(|| cs.is_satisfied()) {
            Some(Ok(true)) => "sat".into(),
            Some(Ok(false)) => "unsat".into(),
            Some(Err(e)) => format!("err:{}", e),
            None => "panic".into(),
        },
    }
}
fn cs_of<F: PrimeField>(r: &Option<Result<Built<F>>>) -> Option<Result<ConstraintSystemRef<F>>> {
    r.as_ref().map(|x| match x {
        Ok(b) => Ok(b.cs.clone()),
        Err(e) => Err(e.clone()),
    })
}
fn eval<F: PrimeField>(l: &Flc<F>, v: &[F]) -> F {
    l.iter().fold(F::zero(), |a, (c, i)| a + *c * v[*i])
}
/// values to put in place of a witness
fn tempt<F: PrimeField>(h: F, rng: &mut impl Rng) -> Vec<F> {
    vec![F::one() - h, F::from(2u64), -F::one(), h + F::one(), h + h, h + F::from(2u64).pow(&[rng.gen_range(1, F::size_in_bits() as u64 - 1)]), -h, F::rand(rng)]
}
fn circ<F: PrimeField, P: FpParameters>(field: &str, bits: &[bool], size: usize, input: bool, tries: usize, rng: &mut rand::rngs::StdRng) -> Vec<Value> {
    let mut kinds: Vec<u8> = bits.iter().map(|_| rng.gen_range(0, 3)).collect();
    for k in kinds.iter_mut().step_by(size) {
        *k = 0; // each chunk lives in a constraint system
    }
    let none = BTreeMap::new();
    let r = guard(|| build::<F, P>(bits, &kinds, size, input, &none));
    let out = verdict(cs_of(&r));
    let event = |b: &Built<F>, vals: &[F], f: &Flat<F>| {
        let bv: Vec<u8> = b.bits.iter().map(|x| eval(&f.lc(&x.lc()), vals)).map(|x| if x.is_zero() { 0 } else if x.is_one() { 1 } else { 2 }).collect();
        let pv: Vec<_> = b.packed.iter().map(|x| lebits(&eval(&f.lc(&x.lc_()), vals))).collect();
        (bv, pv)
    };
    let mut o = json!({"op": "circ", "field": field, "bits": drvutil::bits(bits), "size": size, "input": input as u8, "out": out, "vals": [], "inst": []});
    let b = match r {
        Some(Ok(b)) => b,
        _ => return vec![o],
    };
    let f = Flat::of(&b.cs);
    let (bv, pv) = event(&b, &f.vals, &f);
    o["bits"] = json!(bv);
    o["vals"] = json!(pv);
    o["inst"] = json!(instance(&b.cs, 0));
    let mut evs = vec![o];
    if bv != drvutil::bits(bits) {
        evs.push(json!({"op": "native", "field": field, "bits": drvutil::bits(bits), "out": "misread", "elems": []}));
    }
    let w = f.vals[f.ninst..].to_vec();
    let mut push = |b: &Built<F>, vals: &[F], f: &Flat<F>| {
        let (bv, pv) = event(b, vals, f);
        evs.push(json!({"op": "packed", "field": field, "size": size, "bits": bv, "vals": pv}));
    };
    for _ in 0..tries {
        // the rest recomputed
        let i = rng.gen_range(0, w.len());
        for x in tempt(w[i], rng) {
            let over = vec![(i, x)].into_iter().collect();
            let r = guard(|| build::<F, P>(bits, &kinds, size, input, &over));
            if verdict(cs_of(&r)) == "sat" {
                let b = r.unwrap().unwrap();
                let f = Flat::of(&b.cs);
                push(&b, &f.vals, &f);
            }
        }
        // the rest repaired, with the bits as they are or not
        let v = rng.gen_range(1, f.vals.len());
        let fixed: BTreeSet<usize> = if rng.gen() { b.bits.iter().flat_map(|x| f.lc(&x.lc())).map(|t| t.1).collect() } else { BTreeSet::new() };
        for x in tempt(f.vals[v], rng) {
            if let Some(vals) = f.forge(&fixed, &[(v, x)], rng.gen(), 60) {
                push(&b, &vals, &f);
            }
        }
    }
    evs.push(json!({"op": "tries", "n": 101 + tries}));
    evs
}
fn toy<F: PrimeField, P: FpParameters>(p: u64, n: usize, size: usize, input: bool) -> Vec<Value> {
    let bits = vec![false; n];
    let kinds: Vec<u8> = (0..n).map(|i| (i % 2) as u8).collect();
    let b = match guard(|| build::<F, P>(&bits, &kinds, size, input, &BTreeMap::new())) {
        Some(Ok(b)) => b,
        r => return vec![json!({"op": "circ", "field": p, "bits": drvutil::bits(&bits), "size": size, "input": input as u8, "out": verdict(cs_of(&r)), "vals": [], "inst": []})],
    };
    let f = Flat::of(&b.cs);
    let roles = json!({"bits": b.bits.iter().map(|x| f.role(&x.lc())).collect::<Vec<_>>(), "packed": b.packed.iter().map(|x| f.role(&x.lc_())).collect::<Vec<_>>()});
    let ins: Vec<_> = b.bits.iter().map(|x| f.lc(&x.lc())).collect();
    vec![f.export("multipack", p, &ins, roles, json!({"size": size, "input": input as u8}))]
}

fn h2b(msgs: &[Vec<bool>], over: &BTreeMap<usize, Fr>) -> Result<ConstraintSystemRef<Fr>> {
    let cs = system_with(over);
    HashToBits { message_bits: msgs.iter().map(|m| m.iter().map(|b| Some(*b)).collect()).collect() }.generate_constraints(cs.clone())?;
    Ok(cs)
}
/// the bits are public here, so that what a prover claims can be read off
fn edges(a: &[bool], b: &[bool], over: &BTreeMap<usize, Fq>) -> Result<ConstraintSystemRef<Fq>> {
    let cs = system_with(over);
    let alloc = |v: &[bool]| v.iter().map(|x| Boolean::new_input(cs.clone(), || Ok(*x))).collect::<Result<Vec<_>>>();
    let e = EpochBits { first_epoch_bits: alloc(a)?, last_epoch_bits: alloc(b)?, crh_bits: vec![], xof_bits: vec![] };
    e.verify(None, cs.clone())?;
    Ok(cs)
}
/// reassigns witnesses, alone and in pairs, recomputing what follows, and repairs what does not hold
fn cheat<F: PrimeField>(base: &ConstraintSystemRef<F>, again: impl Fn(&BTreeMap<usize, F>) -> Result<ConstraintSystemRef<F>>, skip: usize, n: usize, rng: &mut impl Rng, mut ev: impl FnMut(Vec<Vec<u8>>)) -> usize {
    let f = Flat::of(base);
    let w = f.vals[f.ninst..].to_vec();
    let mut tries = 0;
    for k in 0..n {
        let mut over = BTreeMap::new();
        for _ in 0..(1 + k % 2) {
            let i = rng.gen_range(0, w.len());
            let t = tempt(w[i], rng);
            over.insert(i, t[rng.gen_range(0, t.len())]);
        }
        tries += 1;
        let r = guard(|| again(&over));
        if verdict(r.as_ref().map(|x| x.as_ref().map(|c| c.clone()).map_err(|e| e.clone()))) == "sat" {
            ev(instance(&r.unwrap().unwrap(), skip));
        }
        // a public input of one's own
        let i = rng.gen_range(1 + skip, f.ninst);
        let x = f.vals[i] + F::from(2u64).pow(&[rng.gen_range(0, F::size_in_bits() as u64 - 1)]);
        tries += 1;
        if let Some(vals) = f.forge(&BTreeSet::new(), &[(i, x)], rng.gen(), 60) {
            ev(vals[1 + skip..f.ninst].iter().map(lebits).collect());
        }
    }
    tries
}

enum Job {
    Native(String, Vec<bool>),
    Circ(String, Vec<bool>, usize, bool),
    H2b(Vec<Vec<bool>>, bool),
    Edges(Vec<bool>, Vec<bool>, bool),
}
pub fn run(c: &mut Ctx) {
    let mut rng = c.rng(0x9ac4);
    let th = c.thorough;
    let mut jobs = vec![];
    for (k, s) in c.script.clone().iter().enumerate() {
        let pat = s["pat"].as_str().unwrap_or("random");
        let field = s["field"].as_str().unwrap_or("").to_string();
        jobs.push((rng.gen::<u64>(), match s["op"].as_str().unwrap() {
            "native" => Job::Native(field, pattern(pat, us(s, "n"), &mut rng)),
            "circ" => Job::Circ(field, pattern(pat, us(s, "n"), &mut rng), us(s, "size"), us(s, "input") == 1),
            "h2b" => Job::H2b((0..us(s, "n")).map(|_| pattern(pat, 384, &mut rng)).collect(), us(s, "n") == 2 && pat == "random" || th),
            "edges" => Job::Edges(pattern("random", us(s, "a"), &mut rng), pattern("random", us(s, "b"), &mut rng), k % 11 == 0 || th),
            _ => {
                let (p, n, size, input) = (us(s, "p"), us(s, "n"), us(s, "size"), us(s, "input") == 1);
                for e in match p {
                    11 => toy::<F11, P11>(11, n, size, input),
                    13 => toy::<F13, P13>(13, n, size, input),
                    _ => toy::<F17, P17>(17, n, size, input),
                } {
                    c.emit(e);
                }
                continue;
            }
        }));
    }
    let evs = par_map(&jobs, |i, (seed, j)| {
        let mut rng = rand::rngs::StdRng::seed_from_u64(*seed);
        match j {
            Job::Native(f, b) => vec![if f == "fq" { native::<Fq, FqParameters>(f, b) } else { native::<Fr, FrParameters>(f, b) }],
            Job::Circ(f, b, size, input) => {
                let t = if th { 60 } else if i % 3 == 0 { 12 } else { 2 };
                if f == "fq" { circ::<Fq, FqParameters>(f, b, *size, *input, t, &mut rng) } else { circ::<Fr, FrParameters>(f, b, *size, *input, t, &mut rng) }
            }
            Job::H2b(m, forge) => {
                let r = guard(|| h2b(m, &BTreeMap::new()));
                let inst = match &r { Some(Ok(cs)) => instance(cs, 0), _ => vec![] };
                let ms: Vec<_> = m.iter().map(|b| drvutil::bits(b)).collect();
                let mut o = vec![];
                if let (true, Some(Ok(cs))) = (*forge, &r) {
                    let mut evs = vec![];
                    let n = cheat(cs, |v| h2b(m, v), 0, if th { 400 } else { 100 }, &mut rng, |i| evs.push(json!({"op": "h2bforged", "n": m.len(), "inst": i})));
                    o.extend(evs);
                    o.push(json!({"op": "tries", "n": n}));
                }
                o.push(json!({"op": "h2b", "msgs": ms, "inst": inst, "out": verdict(r)}));
                o
            }
            Job::Edges(a, b, forge) => {
                let r = guard(|| edges(a, b, &BTreeMap::new()));
                let inst = match &r { Some(Ok(cs)) => instance(cs, a.len() + b.len()), _ => vec![] };
                let mut o = vec![];
                if let (true, Some(Ok(cs))) = (*forge, &r) {
                    let mut evs = vec![];
                    let n = cheat(cs, |v| edges(a, b, v), a.len() + b.len(), if th { 400 } else { 100 }, &mut rng, |i| evs.push(json!({"op": "edgesforged", "a": drvutil::bits(a), "b": drvutil::bits(b), "inst": i})));
                    o.extend(evs);
                    o.push(json!({"op": "tries", "n": n}));
                }
                o.push(json!({"op": "edges", "a": drvutil::bits(a), "b": drvutil::bits(b), "inst": inst, "out": verdict(r)}));
                o
            }
        }
    });
    for v in evs {
        for e in v {
            c.emit(e);
        }
    }
}
