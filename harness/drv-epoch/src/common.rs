use arkshim::curves::bls12_377::{Fq, Fq2, G1Affine, G1Projective, G2Affine, G2Projective};
use arkshim::ec::ProjectiveCurve;
use arkshim::ff::*;
use arkshim::serialize::CanonicalSerialize;
use drvutil::*;
use rand::Rng;

pub fn be(x: &Fq) -> Vec<u8> {
    let mut v: Vec<u8> = x.into_repr().to_bits_le()[..377].iter().map(|b| *b as u8).collect();
    v.reverse();
    v
}
/// the affine coordinates of a key, most significant bit first
pub fn coords(p: &G2Projective) -> Value {
    let a: G2Affine = p.into_affine();
    json!({"x0": be(&a.x.c0), "x1": be(&a.x.c1), "y0": be(&a.y.c0), "y1": be(&a.y.c1)})
}
pub fn enc1(p: &G1Projective) -> String {
    let mut v = vec![];
    let a: G1Affine = p.into_affine();
    a.serialize(&mut v).unwrap();
    v.iter().map(|b| format!("{:02x}", b)).collect()
}
/// the same point in other coordinates
pub fn reproject(p: &G2Projective, rng: &mut impl Rng) -> G2Projective {
    let z = loop {
        let z = Fq2::rand(rng);
        if !z.is_zero() {
            break z;
        }
    };
    let z2 = z.square();
    G2Projective::new(p.x * z2, p.y * z2 * z, p.z * z)
}
