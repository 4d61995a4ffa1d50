//! BLS12-377, the Edwards curve over BW6-761's scalar field, and an idealised BW6-761.
use crate::ec::*;
use crate::ff::*;
use std::fmt::{self, Debug, Display};
use std::ops::*;

pub mod bls12_377 {
    use super::*;
    include!("params.inc");
    pub type Fq = Fp384<FqParameters>;
    pub type Fr = Fp256<FrParameters>;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Fq2Parameters;
    impl Fp2Parameters for Fq2Parameters { type Fp = Fq; const NONRESIDUE_NEG: u64 = 5; }
    pub type Fq2 = Fp2<Fq2Parameters>;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Parameters;
    impl bls12::Bls12Parameters for Parameters {
        type Fp = Fq; type Fp2Params = Fq2Parameters;
        type G1Parameters = g1::Parameters; type G2Parameters = g2::Parameters;
    }
    fn dec(s: &str) -> Fq { s.parse().unwrap() }
    pub mod g1 {
        use super::*;
        #[derive(Clone, Default, Debug, PartialEq, Eq, Copy)]
        pub struct Parameters;
        impl ModelParameters for Parameters { type BaseField = Fq; type ScalarField = Fr; }
        impl SWModelParameters for Parameters {
            fn coeff_a() -> Fq { Fq::zero() }
            fn coeff_b() -> Fq { Fq::one() }
            fn mul_by_a(_: &Fq) -> Fq { Fq::zero() }
            const COFACTOR: &'static [u64] = &[0x0, 0x170b5d4430000000];
            fn cofactor_inv() -> Fr { super::cof_inv(Self::cofactor()) }
            fn generator() -> (Fq, Fq) {
                static G: std::sync::OnceLock<(Fq, Fq)> = std::sync::OnceLock::new();
                *G.get_or_init(|| (dec("81937999373150964239938255573465948239988671502647976594219695644855304257327692006745978603320413799295628339695"),
                 dec("241266749859715473739788878240585681733927191168601896383759122102112907357779751001206799952863815012735208165030")))
            }
        }
    }
    pub(crate) fn cof_inv(c: &[u64]) -> Fr {
        let w = Fr::from(2u64).pow(&[64u64]);
        c.iter().rev().fold(Fr::zero(), |a, l| a * w + Fr::from(*l)).inverse().unwrap()
    }
    pub mod g2 {
        use super::*;
        #[derive(Clone, Default, Debug, PartialEq, Eq, Copy)]
        pub struct Parameters;
        impl ModelParameters for Parameters { type BaseField = Fq2; type ScalarField = Fr; }
        impl SWModelParameters for Parameters {
            fn coeff_a() -> Fq2 { Fq2::zero() }
            fn coeff_b() -> Fq2 {
                static B: std::sync::OnceLock<Fq2> = std::sync::OnceLock::new();
                *B.get_or_init(|| Fq2::new(Fq::zero(), dec("155198655607781456406391640216936120121836107652948796323930557600032281009004493664981332883744016074664192874906")))
            }
            fn mul_by_a(_: &Fq2) -> Fq2 { Fq2::zero() }
            const COFACTOR: &'static [u64] = &G2COF;
            fn cofactor_inv() -> Fr { super::cof_inv(Self::cofactor()) }
            fn generator() -> (Fq2, Fq2) {
                static G: std::sync::OnceLock<(Fq2, Fq2)> = std::sync::OnceLock::new();
                *G.get_or_init(|| (
                    Fq2::new(dec("233578398248691099356572568220835526895379068987715365179118596935057653620464273615301663571204657964920925606294"),
                             dec("140913150380207355837477652521042157274541796891053068589147167627541651775299824604154852141315666357241556069118")),
                    Fq2::new(dec("63160294768292073209381361943935198908131692476676907196754037919244929611450776219210369229519898517858833747423"),
                             dec("149157405641012693445398062341192467754805999074082136895788947234480009303640899064710353187729182149407503257491"))))
            }
        }
        const G2COF: [u64; 8] = include!("g2cof.inc");
    }
    pub type G1Affine = short_weierstrass_jacobian::GroupAffine<g1::Parameters>;
    pub type G1Projective = short_weierstrass_jacobian::GroupProjective<g1::Parameters>;
    pub type G2Affine = short_weierstrass_jacobian::GroupAffine<g2::Parameters>;
    pub type G2Projective = short_weierstrass_jacobian::GroupProjective<g2::Parameters>;

    // Fq6 = Fq2[v]/(v^3 - u), Fq12 = Fq6[w]/(w^2 - v)
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Fq6 { pub c0: Fq2, pub c1: Fq2, pub c2: Fq2 }
    fn mul_u(a: Fq2) -> Fq2 { let m = -(a.c1.double().double() + a.c1); Fq2::new(m, a.c0) }
    impl Fq6 {
        fn zero() -> Self { Fq6 { c0: Fq2::zero(), c1: Fq2::zero(), c2: Fq2::zero() } }
        fn one() -> Self { Fq6 { c0: Fq2::one(), c1: Fq2::zero(), c2: Fq2::zero() } }
        fn add(&self, o: &Self) -> Self { Fq6 { c0: self.c0 + o.c0, c1: self.c1 + o.c1, c2: self.c2 + o.c2 } }
        fn sub(&self, o: &Self) -> Self { Fq6 { c0: self.c0 - o.c0, c1: self.c1 - o.c1, c2: self.c2 - o.c2 } }
        fn neg(&self) -> Self { Fq6 { c0: -self.c0, c1: -self.c1, c2: -self.c2 } }
        fn mul_v(&self) -> Self { Fq6 { c0: mul_u(self.c2), c1: self.c0, c2: self.c1 } }
        fn mul(&self, o: &Self) -> Self {
            let (a, b, c) = (self.c0 * o.c0, self.c1 * o.c1, self.c2 * o.c2);
            let x = (self.c1 + self.c2) * (o.c1 + o.c2) - b - c;
            let y = (self.c0 + self.c1) * (o.c0 + o.c1) - a - b;
            let z = (self.c0 + self.c2) * (o.c0 + o.c2) - a - c;
            Fq6 { c0: a + mul_u(x), c1: y + mul_u(c), c2: z + b }
        }
        fn inverse(&self) -> Option<Self> {
            let (a, b, c) = (self.c0, self.c1, self.c2);
            let t0 = a.square() - mul_u(b * c);
            let t1 = mul_u(c.square()) - a * b;
            let t2 = b.square() - a * c;
            let n = (a * t0 + mul_u(c * t1) + mul_u(b * t2)).inverse()?;
            Some(Fq6 { c0: t0 * n, c1: t1 * n, c2: t2 * n })
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Fq12 { pub c0: Fq6, pub c1: Fq6 }
    impl Fq12 {
        pub fn new(c0: Fq6, c1: Fq6) -> Self { Fq12 { c0, c1 } }
        pub fn square(&self) -> Self { *self * *self }
        pub fn conj(&self) -> Self { Fq12 { c0: self.c0, c1: self.c1.neg() } }
        pub fn conjugate(&mut self) { *self = self.conj() }
        pub fn square_in_place(&mut self) -> &mut Self { *self = self.square(); self }
        pub fn inverse(&self) -> Option<Self> {
            let d = self.c0.mul(&self.c0).sub(&self.c1.mul(&self.c1).mul_v()).inverse()?;
            Some(Fq12 { c0: self.c0.mul(&d), c1: self.c1.mul(&d).neg() })
        }
        pub fn pow<S: AsRef<[u64]>>(&self, e: S) -> Self {
            let mut r = Self::one();
            for b in BitIteratorBE::without_leading_zeros(e) { r = r.square(); if b { r = r * *self; } }
            r
        }
    }
    impl Mul for Fq12 { type Output = Self; fn mul(self, o: Self) -> Self {
        let a = self.c0.mul(&o.c0); let b = self.c1.mul(&o.c1);
        let c = self.c0.add(&self.c1).mul(&o.c0.add(&o.c1)).sub(&a).sub(&b);
        Fq12 { c0: a.add(&b.mul_v()), c1: c }
    } }
    impl std::iter::Product for Fq12 { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::one(), |a, b| a * b) } }
    impl<'a> std::iter::Product<&'a Fq12> for Fq12 { fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::one(), |a, b| a * b) } }
    impl<'a> Mul<&'a Fq12> for &'a Fq12 { type Output = Fq12; fn mul(self, o: &'a Fq12) -> Fq12 { *self * *o } }
    impl<'a> Mul<&'a Fq12> for Fq12 { type Output = Self; fn mul(self, o: &'a Self) -> Self { self * *o } }
    impl<'a> MulAssign<&'a Fq12> for Fq12 { fn mul_assign(&mut self, o: &'a Self) { *self = *self * *o; } }
    impl MulAssign for Fq12 { fn mul_assign(&mut self, o: Self) { *self = *self * o; } }
    impl Add for Fq12 { type Output = Self; fn add(self, o: Self) -> Self { Fq12 { c0: self.c0.add(&o.c0), c1: self.c1.add(&o.c1) } } }
    impl One for Fq12 { fn one() -> Self { Fq12 { c0: Fq6::one(), c1: Fq6::zero() } } }
    impl Zero for Fq12 { fn zero() -> Self { Fq12 { c0: Fq6::zero(), c1: Fq6::zero() } } fn is_zero(&self) -> bool { *self == Self::zero() } }
    impl Display for Fq12 { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Debug::fmt(self, f) } }

    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct Bls12_377;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct G1Prepared(pub G1Affine);
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct G2Prepared(pub G2Affine);
    impl Default for G1Prepared { fn default() -> Self { G1Prepared(G1Affine::prime_subgroup_generator()) } }
    impl Default for G2Prepared { fn default() -> Self { G2Prepared(G2Affine::prime_subgroup_generator()) } }
    impl From<G1Affine> for G1Prepared { fn from(a: G1Affine) -> Self { G1Prepared(a) } }
    impl From<G2Affine> for G2Prepared { fn from(a: G2Affine) -> Self { G2Prepared(a) } }
    impl From<G1Projective> for G1Prepared { fn from(a: G1Projective) -> Self { G1Prepared(a.into()) } }
    impl From<G2Projective> for G2Prepared { fn from(a: G2Projective) -> Self { G2Prepared(a.into()) } }
    impl G2Prepared { pub fn is_zero(&self) -> bool { self.0.is_zero() } }
    impl G1Prepared { pub fn is_zero(&self) -> bool { self.0.is_zero() } }
    const X: u64 = 0x8508c00000000001;
    const HARD: [u64; 20] = include!("hard.inc");
    const EASY: [u64; 12] = include!("q2.inc");

    /// value at P of the line through T (slope l)
    fn line(l: Fq2, t: &(Fq2, Fq2), p: &G1Affine) -> Fq12 {
        let z = Fq2::zero();
        let mut r = Fq12 { c0: Fq6::zero(), c1: Fq6::zero() };
        r.c0.c0 = Fq2::new(p.y, Fq::zero());
        r.c1.c0 = -(l * Fq2::new(p.x, Fq::zero()));
        r.c1.c1 = l * t.0 - t.1;
        let _ = z;
        r
    }
    fn miller(p: &G1Affine, q: &G2Affine) -> Fq12 {
        if p.is_zero() || q.is_zero() { return Fq12::one(); }
        let mut f = Fq12::one();
        let mut t = (q.x, q.y);
        for i in (0..63).rev() {
            f = f.square();
            let l = (t.0.square().double() + t.0.square()) * t.1.double().inverse().unwrap();
            f = f * line(l, &t, p);
            let x3 = l.square() - t.0.double();
            t = (x3, l * (t.0 - x3) - t.1);
            if (X >> i) & 1 == 1 {
                let l = (q.y - t.1) * (q.x - t.0).inverse().unwrap();
                f = f * line(l, &t, p);
                let x3 = l.square() - t.0 - q.x;
                t = (x3, l * (t.0 - x3) - t.1);
            }
        }
        f
    }
    impl PairingEngine for Bls12_377 {
        type Fr = Fr; type Fq = Fq; type Fqe = Fq2; type Fqk = Fq12;
        type G1Projective = G1Projective; type G1Affine = G1Affine; type G1Prepared = G1Prepared;
        type G2Projective = G2Projective; type G2Affine = G2Affine; type G2Prepared = G2Prepared;
        fn miller_loop<'a, I>(i: I) -> Fq12 where I: IntoIterator<Item = &'a (G1Prepared, G2Prepared)> {
            i.into_iter().fold(Fq12::one(), |a, (p, q)| a * miller(&p.0, &q.0))
        }
        fn final_exponentiation(f: &Fq12) -> Option<Fq12> {
            // (q^6 - 1)(q^2 + 1) then (q^4 - q^2 + 1)/r
            let a = f.conj() * f.inverse()?;
            let a = frob2(&a) * a;
            Some(a.pow(&HARD))
        }
    }
    /// a^(q^2): Fq2 is fixed, w^(q^2) = w * u^((q^2-1)/6)
    fn frob2(a: &Fq12) -> Fq12 {
        static C: std::sync::OnceLock<[Fq2; 6]> = std::sync::OnceLock::new();
        let c = C.get_or_init(|| {
            let g = Fq2::new(Fq::zero(), Fq::one()).pow(&EASY);
            let mut o = [Fq2::one(); 6];
            for i in 1..6 { o[i] = o[i - 1] * g; }
            o
        });
        Fq12 { c0: Fq6 { c0: a.c0.c0, c1: a.c0.c1 * c[2], c2: a.c0.c2 * c[4] },
               c1: Fq6 { c0: a.c1.c0 * c[1], c1: a.c1.c1 * c[3], c2: a.c1.c2 * c[5] } }
    }
}

pub mod ed_on_bw6_761 {
    use super::*;
    pub type Fq = super::bls12_377::Fq;
    pub type Fr = Fp384<super::bls12_377::EdFrParameters>;
    #[derive(Clone, Default, Debug, PartialEq, Eq, Copy)]
    pub struct EdwardsParameters;
    impl ModelParameters for EdwardsParameters { type BaseField = Fq; type ScalarField = Fr; }
    impl TEModelParameters for EdwardsParameters {
        fn coeff_a() -> Fq { -Fq::one() }
        fn coeff_d() -> Fq { Fq::from(79743u64) }
        fn cofactor() -> &'static [u64] { &[8] }
        fn generator() -> (Fq, Fq) {
            let mut x = Fq::one();
            loop {
                if let Some(p) = twisted_edwards_extended::GroupAffine::<Self>::get_point_from_x(x, false) {
                    let q = p.into_projective().mul_bits(&[8u64]);
                    if !q.is_zero() { let a = q.into_affine(); return (a.x, a.y); }
                }
                x += Fq::one();
            }
        }
    }
    pub type EdwardsAffine = twisted_edwards_extended::GroupAffine<EdwardsParameters>;
    pub type EdwardsProjective = twisted_edwards_extended::GroupProjective<EdwardsParameters>;
}

pub mod bw6_761 {
    //! Only its scalar field matters: the repository uses BW6-761 through Groth16 alone, which is
    //! idealised (see `snark`). The groups are stand-ins that satisfy the trait bounds.
    use super::*;
    pub use super::bls12_377::{Fq as Fr, FqParameters as FrParameters};
    #[derive(Clone, Default, Debug, PartialEq, Eq, Copy)]
    pub struct Dummy;
    impl ModelParameters for Dummy { type BaseField = Fr; type ScalarField = Fr; }
    impl SWModelParameters for Dummy {
        const COFACTOR: &'static [u64] = &[1];
        fn coeff_a() -> Fr { Fr::zero() }
        fn coeff_b() -> Fr { Fr::one() }
        fn cofactor_inv() -> Fr { Fr::one() }
        fn generator() -> (Fr, Fr) { (Fr::zero(), Fr::one()) }
    }
    pub type G1Affine = short_weierstrass_jacobian::GroupAffine<Dummy>;
    pub type G1Projective = short_weierstrass_jacobian::GroupProjective<Dummy>;
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    #[allow(non_camel_case_types)]
    pub struct BW6_761;
    pub type Parameters = BW6_761;
    impl PairingEngine for BW6_761 {
        type Fr = Fr; type Fq = Fr; type Fqe = Fr; type Fqk = Fr;
        type G1Projective = G1Projective; type G1Affine = G1Affine; type G1Prepared = G1Affine;
        type G2Projective = G1Projective; type G2Affine = G1Affine; type G2Prepared = G1Affine;
        fn miller_loop<'a, I>(_: I) -> Fr where I: IntoIterator<Item = &'a (G1Affine, G1Affine)> { unimplemented!() }
        fn final_exponentiation(_: &Fr) -> Option<Fr> { unimplemented!() }
    }
}
