//! Encoding and decoding of keys and signatures, good and bad.
use ark_bls12_377::{g1, g2, Fr, G1Projective, G2Projective};
use ark_ec::{
    models::{
        short_weierstrass_jacobian::{GroupAffine, GroupProjective},
        SWModelParameters,
    },
    ProjectiveCurve,
};
use ark_ff::{BigInteger, PrimeField, UniformRand, Zero};
use ark_serialize::CanonicalSerialize;
use bls_crypto::{PrivateKey, PublicKey, Signature};
use drvutil::*;
use rand::{Rng, RngCore};

use crate::codec_io::Io;
use crate::h2c::Curve;

trait Ty: Io + CanonicalSerialize + Clone {
    type C: Curve;
    const N: usize;
    fn of(p: GroupProjective<Self::C>) -> Self;
    fn get(&self) -> GroupProjective<Self::C>;
}
impl Ty for PublicKey {
    type C = g2::Parameters;
    const N: usize = 96;
    fn of(p: G2Projective) -> Self {
        p.into()
    }
    fn get(&self) -> G2Projective {
        *self.as_ref()
    }
}
impl Ty for Signature {
    type C = g1::Parameters;
    const N: usize = 48;
    fn of(p: G1Projective) -> Self {
        p.into()
    }
    fn get(&self) -> G1Projective {
        *self.as_ref()
    }
}

fn point<C: Curve>(p: &GroupProjective<C>) -> Value {
    let a: GroupAffine<C> = (*p).into();
    json!({"st": if p.is_zero() {"inf"} else {"pt"}, "x": C::x_bytes(&a.x), "y": C::x_bytes(&a.y), "oncurve": a.is_on_curve()})
}
fn strip(b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    let n = b.len();
    b[n - 1] &= 0x3f;
    b
}
/// reduced field element, all bits significant
fn parse<C: Curve>(b: &[u8]) -> Option<C::BaseField> {
    let x = C::x_of(b)?;
    if C::x_bytes(&x) == b {
        Some(x)
    } else {
        None
    }
}
fn facts<C: Curve>(b: &[u8], n: usize, compressed: bool) -> Value {
    let p = if compressed {
        b.get(..n).and_then(|b| parse::<C>(&strip(b))).and_then(|x| GroupAffine::<C>::get_point_from_x(x, true))
    } else {
        b.get(..2 * n).and_then(|b| {
            let s = strip(b);
            Some(GroupAffine::<C>::new(parse::<C>(&s[..n])?, parse::<C>(&s[n..])?, false))
        })
    };
    match p {
        None => json!({"exists": false, "insub": false}),
        Some(p) => json!({"exists": p.is_on_curve(), "insub": C::mul_r(&p).is_zero()}),
    }
}

fn enc<T: Io>(t: &T, compressed: bool) -> Vec<u8> {
    t.put(compressed)
}
/// None: it did not answer
fn dec<T: Io>(b: &[u8], compressed: bool) -> Option<Option<T>> {
    T::take(b, compressed)
}

fn modulus() -> Vec<u8> {
    let mut m: Vec<u8> = (-ark_bls12_377::Fq::from(1u64)).into_repr().to_bytes_le();
    m[0] += 1; // p - 1 is even
    m
}
fn scalar_modulus() -> Vec<u8> {
    let mut m: Vec<u8> = (-Fr::from(1u64)).into_repr().to_bytes_le();
    m[0] += 1;
    m
}

fn curve_case<T: Ty, R: Rng>(ty: &str, kind: &str, compressed: bool, comp: usize, rng: &mut R, out: &mut Vec<Value>) {
    let n = T::N;
    let p: GroupProjective<T::C> = match kind {
        "small" => {
            let g = GroupProjective::<T::C>::prime_subgroup_generator();
            let mut p = g;
            for _ in 0..rng.gen_range(0, 5) {
                p += g;
            }
            p
        }
        "zero" => GroupProjective::zero(),
        _ => GroupProjective::rand(rng),
    };
    // projective representations with z != 1 too: sums of random points
    let t = T::of(if kind == "good" { p + p } else { p });
    let mut b = enc(&t, compressed);
    out.push(json!({"op": "enc", "ty": ty, "kind": kind, "compressed": compressed, "pt": point::<T::C>(&t.get()), "out": b,
                    "size": t.serialized_size(), "usize": t.uncompressed_size()}));
    let off = if n == 96 { 48 * comp } else { 0 };
    let last = b.len() - 1;
    match kind {
        "negflag" => b[last] ^= 0x80,
        "bothflags" => b[last] |= 0xC0,
        "infnonzero" => b[last] = (b[last] & 0x3f) | 0x40,
        "modulus" => {
            let m = modulus();
            b[off..off + 48].copy_from_slice(&m);
        }
        "modulusplus" => {
            // x + p, another encoding of the same residue
            let m = modulus();
            let mut c = 0u16;
            for i in 0..48 {
                let s = b[off + i] as u16 + m[i] as u16 + c;
                b[off + i] = s as u8;
                c = s >> 8;
            }
        }
        "allones" => {
            for i in 0..48 {
                b[off + i] = 0xff
            }
            b[off + 47] = [0x3f, 0x01, 0xff][rng.gen_range(0, 3)];
        }
        "nopoint" | "nosubgroup" => loop {
            let x = <T::C as ark_ec::models::ModelParameters>::BaseField::rand(rng);
            match GroupAffine::<T::C>::get_point_from_x(x, rng.gen()) {
                None if kind == "nopoint" => {
                    b[..n].copy_from_slice(&T::C::x_bytes(&x));
                    break;
                }
                Some(q) if kind == "nosubgroup" && !T::C::mul_r(&q).is_zero() => {
                    b[..n].copy_from_slice(&T::C::x_bytes(&x));
                    if !compressed {
                        b[n..].copy_from_slice(&T::C::x_bytes(&q.y));
                    }
                    break;
                }
                _ => (),
            }
        },
        "short1" => {
            b.pop();
        }
        "shorthalf" => b.truncate(rng.gen_range(1, b.len())),
        "empty" => b.clear(),
        "trailing" => {
            let mut t = vec![0; 1 + rng.gen_range(0, 9)];
            rng.fill_bytes(&mut t);
            b.extend(t)
        }
        "bitflip" => {
            let i = rng.gen_range(0, b.len() * 8);
            b[i / 8] ^= 1 << (i % 8)
        }
        _ => (),
    }
    // what was asked, then its neighbours, in one go: an answer depends on the question alone
    let mut asked = vec![b.clone()];
    if compressed && !b.is_empty() {
        let at = b.len() - 1;
        for (i, m) in [(at.min(n - 1), 0x80), (rng.gen_range(0, b.len()), 1u8 << rng.gen_range(0, 8))] {
            let mut v = b.clone();
            v[i] ^= m;
            asked.push(v);
        }
    }
    for b in asked {
        let o = match dec::<T>(&b, compressed) {
            None => json!({"st": "panic"}),
            Some(None) => json!({"st": "err"}),
            Some(Some(t)) if t.get().is_zero() => json!({"st": "inf"}),
            Some(Some(t)) => point::<T::C>(&t.get()),
        };
        out.push(json!({"op": "dec", "ty": ty, "kind": kind, "compressed": compressed, "in": b, "facts": facts::<T::C>(&b, n, compressed), "out": o}));
    }
}

fn scalar_case<R: Rng>(kind: &str, compressed: bool, rng: &mut R, out: &mut Vec<Value>) {
    let f = match kind {
        "small" => Fr::from(rng.gen_range(0u64, 5)),
        "zero" => Fr::zero(),
        "infnonzero" => -Fr::from(1u64),
        _ => Fr::rand(rng),
    };
    let sk = PrivateKey::from(f);
    let mut b = enc(&sk, compressed);
    out.push(json!({"op": "enc", "ty": "sk", "kind": kind, "compressed": compressed, "pt": {"x": f.into_repr().to_bytes_le()}, "out": b,
                    "size": sk.serialized_size(), "usize": sk.uncompressed_size()}));
    match kind {
        "negflag" => b[31] ^= 0x80,
        "bothflags" => b[31] |= 0xC0,
        "modulus" => b = scalar_modulus(),
        "modulusplus" => {
            let m = scalar_modulus();
            let mut c = 0u16;
            for i in 0..32 {
                let s = b[i] as u16 + m[i] as u16 + c;
                b[i] = s as u8;
                c = s >> 8;
            }
        }
        "allones" => {
            b = vec![0xff; 32];
            b[31] = [0x1f, 0x7f, 0xff][rng.gen_range(0, 3)];
        }
        "short1" => {
            b.pop();
        }
        "shorthalf" => b.truncate(rng.gen_range(1, 32)),
        "empty" => b.clear(),
        "trailing" => b.extend(vec![9u8; 3]),
        "bitflip" => {
            let i = rng.gen_range(0, 256);
            b[i / 8] ^= 1 << (i % 8)
        }
        _ => (),
    }
    let o = match dec::<PrivateKey>(&b, compressed) {
        None => json!({"st": "panic"}),
        Some(None) => json!({"st": "err"}),
        Some(Some(k)) => json!({"st": "pt", "x": k.as_ref().into_repr().to_bytes_le()}),
    };
    out.push(json!({"op": "dec", "ty": "sk", "kind": kind, "compressed": compressed, "in": b, "facts": {"exists": true, "insub": true}, "out": o}));
}

pub fn run(c: &mut Ctx) {
    let salt = 400;
    let reps = if c.thorough { 60 } else { 6 };
    let jobs: Vec<(Value, usize)> = c.script.iter().flat_map(|s| (0..reps).map(move |r| (s.clone(), r))).collect();
    let cx = &*c;
    let evs = par_map(&jobs, |i, (s, _)| case(s, &mut cx.rng(salt + i as u64)));
    for e in evs.into_iter().flatten() {
        c.emit(e);
    }
}
pub fn case<R: Rng>(s: &Value, rng: &mut R) -> Vec<Value> {
    let mut o = vec![];
    let (k, z, cp) = (st(s, "kind"), s["compressed"].as_bool().unwrap(), us(s, "comp"));
    match st(s, "ty") {
        "key" => curve_case::<PublicKey, _>("key", k, z, cp, rng, &mut o),
        "sig" => curve_case::<Signature, _>("sig", k, z, cp, rng, &mut o),
        _ => scalar_case(k, z, rng, &mut o),
    }
    o
}
