//! Histories of a PublicKeyCache.
use ark_bls12_377::{g2, Fq, Fq2, Fr, G2Projective};
use ark_ec::{models::short_weierstrass_jacobian::GroupAffine, AffineCurve, ProjectiveCurve};
use ark_ff::{BigInteger, Field, One, PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bls_crypto::{PublicKey, PublicKeyCache};
use drvutil::*;
use rand::Rng;
use std::collections::HashMap;

/// Labels of keys are integers that add up as the keys do: v stands for v * generator, and w * LAMBDA for
/// w * lambda * generator, where multiplication by lambda keeps the y coordinate and changes x.
const LAMBDA: i64 = 1_000_000;
struct World {
    keys: Vec<G2Projective>, // v * generator
    beta: Fq2,               // (x, y) becomes (beta x, y)
    log: HashMap<Vec<u8>, i64>,
    nosub: Vec<u8>,
    range: Vec<u8>,
}
fn enc(p: &G2Projective) -> Vec<u8> {
    let mut b = vec![];
    p.into_affine().serialize(&mut b).unwrap();
    b
}
impl World {
    fn new<R: Rng>(rng: &mut R) -> World {
        let g = G2Projective::prime_subgroup_generator();
        let mut keys = vec![G2Projective::zero()];
        for i in 1..1300 {
            let k = keys[i - 1] + g;
            keys.push(k.into_affine().into_projective());
        }
        let mut log: HashMap<Vec<u8>, i64> = keys.iter().enumerate().map(|(i, k)| (enc(k), i as i64)).collect();
        // a cube root of unity
        let mut third = Fr::modulus_minus_one_div_two();
        third.mul2();
        let third = div3(third);
        let lambda = (2u64..).map(|t| Fr::from(t).pow(&third)).find(|x| !x.is_one()).unwrap();
        let lg = g.mul(lambda.into_repr()).into_affine();
        let beta = lg.x * g.into_affine().x.inverse().unwrap();
        assert!(lg.y == g.into_affine().y && !beta.is_one());
        let (lg, low) = (lg.into_projective(), -(g.mul(Fr::from(24u64).into_repr())));
        let mut row = G2Projective::zero();
        for b in 0..40 {
            let mut p = row + low;
            for a in -24i64..=48 {
                log.insert(enc(&p), b * LAMBDA + a);
                p += g;
            }
            row += lg;
        }
        let nosub = loop {
            let x = Fq2::rand(rng);
            if let Some(p) = GroupAffine::<g2::Parameters>::get_point_from_x(x, true) {
                if !p.is_in_correct_subgroup_assuming_on_curve() {
                    break enc(&p.into_projective());
                }
            }
        };
        // c0 = p, not reduced
        let mut range = enc(&g);
        let m = <Fq as PrimeField>::Params::default_modulus();
        range[..48].copy_from_slice(&m[..48]);
        World { keys, beta, log, nosub, range }
    }
    fn key(&self, v: i64) -> G2Projective {
        let (w, a) = (v / LAMBDA, v % LAMBDA);
        let mut k = self.keys[w.abs() as usize];
        k.x *= &self.beta;
        if w == 0 {
            k = G2Projective::zero();
        }
        let n = self.keys[a.abs() as usize];
        let s = k + &(if a < 0 { -n } else { n });
        s.into_affine().into_projective()
    }
    fn value(&self, p: &PublicKey) -> i64 {
        self.log.get(&enc(p.as_ref())).copied().unwrap_or(-1)
    }
    /// the same point with other projective coordinates
    fn rep<R: Rng>(&self, v: i64, rep: usize, rng: &mut R) -> PublicKey {
        let k = self.key(v);
        if rep == 3 {
            // the coordinates x and y of another key
            if v < 0 {
                let k = self.keys[-v as usize];
                return PublicKey::from(G2Projective::new(k.x, k.y, -k.z));
            }
            if v >= LAMBDA {
                let k = self.keys[(v / LAMBDA) as usize];
                return PublicKey::from(G2Projective::new(k.x, k.y, self.beta));
            }
        }
        PublicKey::from(match rep {
            0 => k,
            1 => {
                let z = Fq2::rand(rng);
                let z2 = z.square();
                G2Projective::new(k.x * z2, k.y * (z2 * z), z * k.z)
            }
            2 if v >= 0 && v < LAMBDA => G2Projective::prime_subgroup_generator().mul(Fr::from(v as u64).into_repr()),
            _ => k,
        })
    }
}
/// n / 3
fn div3(n: ark_ff::BigInteger256) -> ark_ff::BigInteger256 {
    let mut out = n;
    let mut rem = 0u128;
    for i in (0..4).rev() {
        let cur = (rem << 64) | n.0[i] as u128;
        out.0[i] = (cur / 3) as u64;
        rem = cur % 3;
    }
    out
}
trait Modulus {
    fn default_modulus() -> Vec<u8>;
}
impl<T: ark_ff::FftParameters<BigInt = ark_ff::BigInteger384> + ark_ff::FpParameters> Modulus for T {
    fn default_modulus() -> Vec<u8> {
        T::MODULUS.to_bytes_le()
    }
}

fn session<R: Rng>(w: &World, ops: &[Value], rng: &mut R) -> Value {
    let mut c = PublicKeyCache::new();
    let mut out = vec![];
    for o in ops {
        let mut e = o.clone();
        match st(o, "op") {
            "clear" => c.clear_cache(),
            "de" => {
                let v = o["v"].as_i64().unwrap();
                let mut b = enc(&w.key(v));
                let v = v.abs() as usize;
                match st(o, "kind") {
                    "trailing" => b.extend(vec![7u8; 1 + v % 5]),
                    "badflag" => b[95] |= 0xC0,
                    "short" => b.truncate(95 - v % 90),
                    "empty" => b.clear(),
                    "range" => b = w.range.clone(),
                    "nosubgroup" => b = w.nosub.clone(),
                    _ => (),
                }
                let (s, r) = match guard(|| c.deserialize(b)) {
                    None => ("panic", 0),
                    Some(Err(_)) => ("err", 0),
                    Some(Ok(k)) => ("ok", w.value(&k)),
                };
                e["st"] = json!(s);
                e["out"] = json!(r);
            }
            "agg" => {
                let ks = o["ks"].as_array().unwrap();
                let list = ks
                    .iter()
                    .enumerate()
                    .map(|(i, k)| w.rep(k.as_i64().unwrap(), o["rep"][i].as_u64().unwrap_or(0) as usize, rng))
                    .collect::<Vec<_>>();
                e["out"] = json!(guard(|| c.aggregate(list)).map_or(-2, |k| w.value(&k)));
            }
            other => panic!("op {}", other),
        }
        e["combined"] = json!(w.value(&c.combined));
        e["memo"] = json!(c.de.len());
        let full = ops.len() < 100 || out.len() % 97 == 0 || out.len() + 1 == ops.len();
        e["wrong"] = json!(if full {
            c.de.iter().filter(|(d, k)| PublicKey::deserialize(&mut &d[..]).map_or(true, |r| r != **k)).count()
        } else {
            0
        });
        out.push(e);
    }
    json!({"ops": out})
}

pub fn run(c: &mut Ctx) {
    let mut rng = c.rng(30);
    let w = World::new(&mut rng);
    let mut all: Vec<Vec<Value>> = c.script.iter().map(|s| s.as_array().unwrap().clone()).collect();
    // more encodings than the memo holds, revisited
    let mut o = vec![];
    for v in 1..700 {
        o.push(json!({"op": "de", "v": v, "kind": "plain"}));
        if v % 50 == 0 {
            for k in [1, v / 2, v] {
                o.push(json!({"op": "de", "v": k, "kind": "plain"}));
                o.push(json!({"op": "de", "v": k, "kind": "trailing"}));
            }
            o.push(json!({"op": "de", "v": v, "kind": "short"}));
        }
    }
    for v in 1..100 {
        o.push(json!({"op": "de", "v": v, "kind": "plain"}));
    }
    o.push(json!({"op": "agg", "ks": [5, 6], "rep": [0, 1]}));
    o.push(json!({"op": "clear"}));
    o.push(json!({"op": "de", "v": 3, "kind": "plain"}));
    o.push(json!({"op": "agg", "ks": [5, 6], "rep": [0, 1]}));
    all.push(o);
    // validator sets that change slowly, as in use; members keep, change, or mix representations
    for t in 0..(if c.thorough { 60 } else { 12 }) {
        let mut set: Vec<usize> = (1..=rng.gen_range(3, 20)).collect();
        let mut o = vec![];
        for step in 0..30 {
            let n = rng.gen_range(0, 3);
            for _ in 0..n {
                if set.len() > 1 && rng.gen() {
                    let i = rng.gen_range(0, set.len());
                    set.remove(i);
                } else {
                    set.push(rng.gen_range(1, 40));
                }
            }
            if step % 7 == 6 {
                // a duplicate, and a reordering
                let d = set[rng.gen_range(0, set.len())];
                set.push(d);
                set.reverse();
            }
            let rep: Vec<usize> = set.iter().map(|_| if t % 3 == 0 { 0 } else { rng.gen_range(0, 3) }).collect();
            o.push(json!({"op": "agg", "ks": set, "rep": rep}));
            if step == 20 {
                o.push(json!({"op": "clear"}));
            }
            if step % 4 == 0 {
                o.push(json!({"op": "de", "v": rng.gen_range(1, 40), "kind": "plain"}));
            }
            if step == 11 {
                o.push(json!({"op": "agg", "ks": [], "rep": []}));
            }
        }
        all.push(o);
    }
    // a key and its inverse, the zero key
    all.push(vec![
        json!({"op": "agg", "ks": [0], "rep": [0]}),
        json!({"op": "agg", "ks": [0, 7, 7], "rep": [0, 0, 1]}),
        json!({"op": "agg", "ks": [7, 0], "rep": [1, 0]}),
        json!({"op": "agg", "ks": [7, 7, 7], "rep": [0, 1, 2]}),
        json!({"op": "agg", "ks": [], "rep": []}),
        json!({"op": "agg", "ks": [7], "rep": [2]}),
    ]);
    // keys that share a coordinate: the same y and another x, the same x and another y, the same x and y and another z
    let all_kin = |v: i64| vec![v, v * LAMBDA, -v];
    for t in 0..(if c.thorough { 60 } else { 16 }) {
        let mut o = vec![];
        for step in 0..12 {
            let mut set: Vec<i64> = vec![];
            for v in 1..=3 {
                for k in all_kin(v) {
                    if rng.gen() {
                        set.push(k);
                    }
                }
            }
            if t % 2 == 0 {
                set.reverse();
            }
            let rep: Vec<usize> = set.iter().map(|_| if t % 4 < 2 { 0 } else { rng.gen_range(0, 4) }).collect();
            if step == 5 {
                for k in all_kin(2) {
                    o.push(json!({"op": "de", "v": k, "kind": "plain"}));
                }
                for k in all_kin(2).into_iter().rev() {
                    o.push(json!({"op": "de", "v": k, "kind": "trailing"}));
                }
            }
            o.push(json!({"op": "agg", "ks": set, "rep": rep}));
        }
        all.push(o);
    }
    for v in 1..4 {
        for (a, b) in [(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)] {
            let k = all_kin(v);
            all.push(vec![
                json!({"op": "agg", "ks": [k[a]], "rep": [0]}),
                json!({"op": "agg", "ks": [k[b]], "rep": [3]}),
                json!({"op": "agg", "ks": [k[a], k[b]], "rep": [0, 3]}),
                json!({"op": "agg", "ks": [k[b], 9, k[a]], "rep": [0, 0, 0]}),
                json!({"op": "agg", "ks": [k[b]], "rep": [0]}),
                json!({"op": "agg", "ks": [k[a]], "rep": [1]}),
            ]);
        }
    }
    let salt: u64 = rng.gen();
    let cx = &*c;
    let evs = par_map(&all, |i, s| session(&w, s, &mut cx.rng(salt ^ i as u64)));
    for e in evs {
        c.emit(e);
    }
}
