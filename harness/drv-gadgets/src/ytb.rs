//! FpUtils::{is_eq_zero, normalize} and YToBitGadget on G1 and G2 coordinates
use crate::bitmap::outcome;
use arkshim::curves::bls12_377::{Fq, Fq2, Fr, G1Affine, G2Affine, Parameters};
use arkshim::ec::{AffineCurve, ProjectiveCurve};
use arkshim::ff::*;
use arkshim::gadgets::*;
use arkshim::r1cs::*;
use bls_gadgets::{FpUtils, YToBitGadget};
use circutil::*;
use drvutil::*;
use std::collections::BTreeSet;

fn be<F: PrimeField>(x: &F) -> Vec<u8> {
    let n = F::size_in_bits();
    x.into_repr().to_bits_le()[..n].iter().rev().map(|b| *b as u8).collect()
}
fn class<F: PrimeField>(name: &str, rng: &mut impl rand::Rng) -> F {
    let half = F::from_repr(F::modulus_minus_one_div_two()).unwrap();
    match name {
        "zero" => F::zero(),
        "one" => F::one(),
        "two" => F::from(2u64),
        "half-2" => half - F::from(2u64),
        "half-1" => half - F::one(),
        "half" => half,
        "half+1" => half + F::one(),
        "half+2" => half + F::from(2u64),
        "-1" => -F::one(),
        "-2" => -F::from(2u64),
        _ => F::rand(rng),
    }
}
fn alloc<F: PrimeField>(cs: &ConstraintSystemRef<F>, v: F, kind: &str) -> FpVar<F> {
    match kind {
        "input" => FpVar::new_input(cs.clone(), || Ok(v)).unwrap(),
        "const" => FpVar::Constant(v),
        "lc" => FpVar::new_witness(cs.clone(), || Ok(v - F::from(3u64))).unwrap() + F::from(3u64),
        _ => FpVar::new_witness(cs.clone(), || Ok(v)).unwrap(),
    }
}
struct Run<F: PrimeField> {
    cs: ConstraintSystemRef<F>,
    ins: Vec<FpVar<F>>,
    bit: Boolean<F>,
}
/// gadget over the coordinates (one for the field gadgets and G1, two for G2)
fn scalar_run<F: PrimeField>(gadget: &str, v: F, kind: &str) -> Result<Run<F>> {
    let cs = ConstraintSystem::<F>::new_ref();
    let el = alloc(&cs, v, kind);
    let bit = if gadget == "is_eq_zero" { el.is_eq_zero()? } else { el.normalize()? };
    Ok(Run { cs, ins: vec![el], bit })
}
fn curve_run(gadget: &str, v: &[Fq], kind: &str) -> Result<Run<Fq>> {
    let cs = ConstraintSystem::<Fq>::new_ref();
    let c: Vec<FpVar<Fq>> = v.iter().map(|x| alloc(&cs, *x, kind)).collect();
    if gadget == "g1" {
        let x = FpVar::new_witness(cs.clone(), || Ok(Fq::from(5u64)))?;
        let p: G1Var<Parameters> = ProjectiveVar::new(x, c[0].clone(), FpVar::one());
        let bit = p.y_to_bit()?;
        return Ok(Run { cs, ins: c, bit });
    }
    let x = Fp2Var::new_witness(cs.clone(), || Ok(Fq2::new(Fq::from(5u64), Fq::from(6u64))))?;
    let p: G2Var<Parameters> = ProjectiveVar::new(x, Fp2Var::new(c[0].clone(), c[1].clone()), Fp2Var::one());
    let bit = p.y_to_bit()?;
    Ok(Run { cs, ins: c, bit })
}
fn judge<F: PrimeField>(r: Option<Result<Run<F>>>) -> (String, u8) {
    match r {
        None => ("panic".into(), 2),
        Some(Err(e)) => (format!("err:{}", e), 2),
        Some(Ok(r)) => {
            let bit = r.bit.value().map_or(2, |b| b as u8);
            // constants leave no constraint to judge
            if r.cs.num_constraints() == 0 { ("sat".into(), bit) } else { (outcome(Some(r.cs.is_satisfied())), bit) }
        }
    }
}
/// can a prover get the wrong answer accepted?
fn cheat<F: PrimeField>(r: Run<F>, wrong: bool, emit: &mut dyn FnMut(u8, usize)) {
    let f = Flat::of(&r.cs);
    let mut fixed: BTreeSet<usize> = BTreeSet::new();
    for x in &r.ins {
        fixed.extend(f.lc(&x.lc_()).iter().map(|t| t.1));
    }
    let bools: Vec<usize> = f.boolean_witnesses();
    let out = f.lc(&r.bit.lc());
    let want = if wrong { F::one() } else { F::zero() };
    let mut tries = 0;
    let mut got = 0;
    for mask in 1..(1u64 << bools.len().min(9)) {
        let flips: Vec<(usize, F)> = bools.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, v)| (*v, F::one() - f.vals[*v])).collect();
        for low in &[false, true] {
            tries += 1;
            if let Some(vals) = f.forge(&fixed, &flips, *low, 60) {
                let b = out.iter().fold(F::zero(), |a, (c, v)| a + *c * vals[*v]);
                if b == want {
                    got = 1;
                }
            }
        }
    }
    emit(got, tries)
}
fn toy<F: PrimeField>(c: &mut Ctx, p: u64) {
    for g in &["is_eq_zero", "normalize"] {
        for k in &["input", "witness", "lc"] {
            let r = scalar_run::<F>(g, F::from(2u64), k).expect("toy circuit");
            let f = Flat::of(&r.cs);
            let el = r.ins[0].lc_();
            c.emit(f.export(g, p, &[f.lc(&el)], json!({"el": f.role(&el), "bit": f.role(&r.bit.lc())}), json!({})));
        }
    }
}

pub fn run(c: &mut Ctx) {
    let mut rng = c.rng(0x717);
    let mut evs: Vec<Value> = vec![];
    for s in c.script.clone() {
        let (g, kind) = (st(&s, "gadget").to_string(), st(&s, "kind").to_string());
        let c0 = st(&s, "c0").to_string();
        let v0: Fq = class(&c0, &mut rng);
        match g.as_str() {
            "normalize" | "is_eq_zero" => {
                let (o, bit) = judge(guard(|| scalar_run(&g, v0, &kind)));
                evs.push(json!({"op": "bit", "gadget": g, "field": "fq", "kind": kind, "y": [be(&v0)], "out": o, "bit": bit}));
                let vr: Fr = class(&c0, &mut rng);
                let (o, bit) = judge(guard(|| scalar_run(&g, vr, &kind)));
                evs.push(json!({"op": "bit", "gadget": g, "field": "fr", "kind": kind, "y": [be(&vr)], "out": o, "bit": bit}));
                if kind == "witness" {
                    for wrong in &[false, true] {
                        if let Some(Ok(r)) = guard(|| scalar_run(&g, v0, &kind)) {
                            cheat(r, *wrong, &mut |sat, tries| evs.push(json!({"op": "cheat", "gadget": g, "field": "fq", "c0": c0, "c1": "", "y": [be(&v0)], "bit": *wrong as u8, "sat": sat, "tries": tries})));
                        }
                    }
                }
            }
            "g1" | "g2" => {
                let c1 = if g == "g2" { st(&s, "c1").to_string() } else { String::new() };
                let mut v = vec![v0];
                if g == "g2" {
                    v.push(class(&c1, &mut rng));
                }
                let y: Vec<Vec<u8>> = v.iter().map(be).collect();
                let (o, bit) = judge(guard(|| curve_run(&g, &v, &kind)));
                evs.push(json!({"op": "bit", "gadget": g, "field": "fq", "kind": kind, "y": y, "out": o, "bit": bit}));
                if kind == "witness" {
                    for wrong in &[false, true] {
                        if let Some(Ok(r)) = guard(|| curve_run(&g, &v, &kind)) {
                            cheat(r, *wrong, &mut |sat, tries| evs.push(json!({"op": "cheat", "gadget": g, "field": "fq", "c0": c0, "c1": c1, "y": y, "bit": *wrong as u8, "sat": sat, "tries": tries})));
                        }
                    }
                }
            }
            // real points, allocated as the circuits allocate them; the bit is the one of the compressed point
            "point" => {
                let neg = s["c0"] == "neg";
                let k = Fr::rand(&mut rng);
                let mut p1: G1Affine = G1Affine::prime_subgroup_generator().mul(k.into_repr()).into_affine();
                let mut p2: G2Affine = G2Affine::prime_subgroup_generator().mul(k.into_repr()).into_affine();
                if neg {
                    p1 = -p1;
                    p2 = -p2;
                }
                let r1 = guard(|| -> Result<Run<Fq>> {
                    let cs = ConstraintSystem::<Fq>::new_ref();
                    let p: G1Var<Parameters> = CurveVar::new_variable_omit_prime_order_check(cs.clone(), || Ok(p1.into_projective()), AllocationMode::Witness)?;
                    let bit = p.y_to_bit()?;
                    Ok(Run { cs, ins: vec![], bit })
                });
                let (o, bit) = judge(r1);
                evs.push(json!({"op": "bit", "gadget": "g1", "field": "fq", "kind": "point", "y": [be(&p1.y)], "out": o, "bit": bit}));
                let r2 = guard(|| -> Result<Run<Fq>> {
                    let cs = ConstraintSystem::<Fq>::new_ref();
                    let p: G2Var<Parameters> = CurveVar::new_variable_omit_prime_order_check(cs.clone(), || Ok(p2.into_projective()), AllocationMode::Witness)?;
                    let bit = p.y_to_bit()?;
                    Ok(Run { cs, ins: vec![], bit })
                });
                let (o, bit) = judge(r2);
                evs.push(json!({"op": "bit", "gadget": "g2", "field": "fq", "kind": "point", "y": [be(&p2.y.c0), be(&p2.y.c1)], "out": o, "bit": bit}));
            }
            x => panic!("gadget {}", x),
        }
    }
    for e in evs {
        c.emit(e)
    }
    toy::<F11>(c, 11);
    toy::<F13>(c, 13);
    toy::<F17>(c, 17);
    toy::<F31>(c, 31);
    if c.thorough {
        toy::<F61>(c, 61);
    }
}
