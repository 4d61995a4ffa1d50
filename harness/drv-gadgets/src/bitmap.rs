//! Bitmap::enforce_maximum_occurrences_in_bitmap
use arkshim::ff::*;
use arkshim::gadgets::*;
use arkshim::r1cs::*;
use bls_gadgets::verif_hooks::Bitmap;
use circutil::*;
use drvutil::*;
use rand::Rng;
use std::collections::BTreeSet;

pub struct Built<F: PrimeField> {
    pub cs: ConstraintSystemRef<F>,
    bits: Vec<Boolean<F>>,
    max: FpVar<F>,
    err: Option<String>,
}
/// kinds: how each bit is allocated (0 witness, 1 input, 2 negated witness, 3 constant, 4 negated input),
/// maxkind likewise (0 witness, 1 input, 2 constant, 3 a sum of two witnesses)
pub fn build<F: PrimeField>(bits: &[bool], kinds: &[u8], max: F, maxkind: u8, value: bool) -> Built<F> {
    let cs = ConstraintSystem::<F>::new_ref();
    let bv: Vec<Boolean<F>> = bits
        .iter()
        .zip(kinds)
        .map(|(b, k)| match k {
            0 => Boolean::new_witness(cs.clone(), || Ok(*b)).unwrap(),
            1 => Boolean::new_input(cs.clone(), || Ok(*b)).unwrap(),
            2 => Boolean::new_witness(cs.clone(), || Ok(!*b)).unwrap().not(),
            3 => Boolean::constant(*b),
            _ => Boolean::new_input(cs.clone(), || Ok(!*b)).unwrap().not(),
        })
        .collect();
    let mv = match maxkind {
        0 => FpVar::new_witness(cs.clone(), || Ok(max)).unwrap(),
        1 => FpVar::new_input(cs.clone(), || Ok(max)).unwrap(),
        2 => FpVar::Constant(max),
        _ => {
            let k = F::from(7u64);
            let a = FpVar::new_witness(cs.clone(), || Ok(max - k)).unwrap();
            &a + &FpVar::Constant(k)
        }
    };
    let err = match bv[..].enforce_maximum_occurrences_in_bitmap(&mv, value) {
        Ok(()) => None,
        Err(e) => Some(format!("err:{}", e)),
    };
    Built { cs, bits: bv, max: mv, err }
}
pub fn outcome(sat: Option<Result<bool>>) -> String {
    match sat {
        None => "panic".into(),
        Some(Ok(true)) => "sat".into(),
        Some(Ok(false)) => "unsat".into(),
        Some(Err(e)) => format!("err:{}", e),
    }
}
fn honest<F: PrimeField>(bits: &[bool], kinds: &[u8], max: F, maxkind: u8, value: bool) -> String {
    match guard(|| {
        let b = build(bits, kinds, max, maxkind, value);
        match b.err {
            Some(e) => e,
            None => outcome(Some(b.cs.is_satisfied())),
        }
    }) {
        Some(s) => s,
        None => "panic".into(),
    }
}
/// the dishonest assignments to try on a circuit for these inputs
fn cheat<F: PrimeField>(bits: &[bool], max: u64, value: bool, many: bool, rng: &mut impl Rng) -> Vec<Value> {
    let kinds: Vec<u8> = bits.iter().enumerate().map(|(i, _)| (i % 3) as u8).collect();
    let b = match guard(|| build::<F>(bits, &kinds, F::from(max), (max % 2) as u8, value)) {
        Some(b) if b.err.is_none() => b,
        _ => return vec![],
    };
    let f = Flat::of(&b.cs);
    let mut fixed: BTreeSet<usize> = BTreeSet::new();
    for x in &b.bits {
        fixed.extend(f.lc(&x.lc()).iter().map(|t| t.1));
    }
    fixed.extend(f.lc(&b.max.lc_()).iter().map(|t| t.1));
    let (mut any, mut tries) = (false, 0);
    let own: Vec<usize> = (f.ninst..f.vals.len()).filter(|v| !fixed.contains(v)).collect();
    for (k, v) in own.iter().enumerate() {
        if k >= 6 && !rng.gen_bool(if many { 0.2 } else { 0.02 }) {
            continue;
        }
        let h = f.vals[*v];
        let half = F::from_repr(F::modulus_minus_one_div_two()).unwrap();
        for x in &[h + F::one(), h - F::one(), F::zero(), F::one(), F::from(max), F::from(max + 1), -F::one(), half, half + F::one(), -h] {
            if *x == h {
                continue;
            }
            for low in &[false, true] {
                let sat = f.forge(&fixed, &[(*v, *x)], *low, 40).is_some();
                any |= sat;
                tries += 1;
            }
        }
    }
    vec![json!({"op": "cheat", "bits": drvutil::bits(bits), "max": max, "value": value as u8, "sat": any as u8, "tries": tries})]
}

fn toy<F: PrimeField>(p: u64, n: usize, value: bool, maxkind: u8) -> Value {
    let bits = vec![false; n];
    let kinds: Vec<u8> = (0..n).map(|i| [0u8, 2, 1, 0, 4][i % 5]).collect();
    // instance variables come first in the exploration whatever the order of allocation
    let b = build::<F>(&bits, &kinds, F::from(1u64), maxkind, value);
    let f = Flat::of(&b.cs);
    let roles = json!({"bits": b.bits.iter().map(|x| f.role(&x.lc())).collect::<Vec<_>>(), "max": f.role(&b.max.lc_())});
    let mut ins: Vec<_> = b.bits.iter().map(|x| f.lc(&x.lc())).collect();
    ins.push(f.lc(&b.max.lc_()));
    f.export("bitmap", p, &ins, roles, json!({"value": value as u8}))
}

pub fn run(c: &mut Ctx) {
    type Fq = arkshim::curves::bls12_377::Fq;
    type Fr = arkshim::curves::bls12_377::Fr;
    let mut jobs: Vec<(u64, Vec<bool>, u64, bool)> = vec![];
    let mut rng = c.rng(0xb17);
    for s in c.script.clone() {
        let value = us(&s, "value") == 1;
        let bits = if s["bits"].is_array() {
            unbits(&s["bits"])
        } else {
            let (n, k) = (us(&s, "n"), us(&s, "count"));
            let mut v: Vec<bool> = (0..n).map(|i| (i < k) == value).collect();
            for i in (1..n).rev() {
                v.swap(i, rng.gen_range(0, i + 1));
            }
            v
        };
        jobs.push((rng.gen(), bits, us(&s, "max") as u64, value));
    }
    let thorough = c.thorough;
    let evs = par_map(&jobs, |i, (seed, bits, max, value)| {
        use rand::SeedableRng;
        let mut rng = rand::rngs::StdRng::seed_from_u64(*seed);
        let mut out = vec![];
        let mut kinds: Vec<u8> = bits.iter().map(|_| if i % 3 == 0 { 0 } else { rng.gen_range(0, 5) }).collect();
        if kinds.iter().all(|k| *k == 3) {
            kinds[0] = 0; // at least one variable: the gadget lives in a constraint system
        }
        let mk = (i % 4) as u8;
        let fr = i % 5 == 0;
        let go = |kinds: &[u8], mk: u8| if fr { honest::<Fr>(bits, kinds, Fr::from(*max), mk, *value) } else { honest::<Fq>(bits, kinds, Fq::from(*max), mk, *value) };
        out.push(json!({"op": "bitmap", "field": if fr {"bls12-377 Fr"} else {"bls12-377 Fq"}, "bits": drvutil::bits(bits), "kinds": kinds, "maxkind": mk,
            "max": {"cls": "int", "v": max}, "value": *value as u8, "out": go(&kinds, mk)}));
        if i % 16 == 0 {
            // the extremes of the field
            let half = Fq::from_repr(Fq::modulus_minus_one_div_two()).unwrap();
            for (cls, m) in &[("belowhalf", half - Fq::one()), ("half", half), ("abovehalf", half + Fq::one()), ("minusone", -Fq::one()), ("minustwo", -Fq::from(2u64))] {
                out.push(json!({"op": "bitmap", "field": "bls12-377 Fq", "bits": drvutil::bits(bits), "kinds": kinds, "maxkind": mk,
                    "max": {"cls": cls, "v": 0}, "value": *value as u8, "out": honest::<Fq>(bits, &kinds, *m, mk, *value)}));
            }
        }
        let count = bits.iter().filter(|b| *b == value).count() as u64;
        if count > *max && (i % 3 == 0 || bits.len() > 8) {
            out.extend(cheat::<Fq>(bits, *max, *value, thorough, &mut rng));
        }
        out
    });
    for v in evs {
        for e in v {
            c.emit(e);
        }
    }
    for value in &[false, true] {
        for mk in 0..4 {
            for n in 1..=4 {
                c.emit(toy::<F13>(13, n, *value, mk));
                if thorough || mk == 0 {
                    c.emit(toy::<F17>(17, n, *value, mk));
                }
            }
            if thorough {
                for n in 1..=6 {
                    c.emit(toy::<F31>(31, n, *value, mk));
                }
            }
        }
    }
}
