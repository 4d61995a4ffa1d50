//! Curve traits of ark-ec 0.2, short Weierstrass (Jacobian) and twisted Edwards groups.
use crate::ff::*;
use crate::serialize::*;
use rand::{distributions::{Distribution, Standard}, Rng};
use std::fmt::{self, Debug, Display};
use std::hash::Hash;
use std::io::{Result as IoResult};
use std::marker::PhantomData;
use std::ops::*;

pub trait ModelParameters: Send + Sync + 'static {
    type BaseField: Field + SquareRootField;
    type ScalarField: PrimeField + SquareRootField + Into<<Self::ScalarField as PrimeField>::BigInt>;
}
pub trait SWModelParameters: ModelParameters {
    fn coeff_a() -> Self::BaseField;
    fn coeff_b() -> Self::BaseField;
    const COFACTOR: &'static [u64];
    fn cofactor() -> &'static [u64] { Self::COFACTOR }
    fn cofactor_inv() -> Self::ScalarField;
    fn generator() -> (Self::BaseField, Self::BaseField);
    fn mul_by_a(e: &Self::BaseField) -> Self::BaseField { Self::coeff_a() * e }
    fn add_b(e: &Self::BaseField) -> Self::BaseField { Self::coeff_b() + e }
}
pub trait TEModelParameters: ModelParameters {
    fn coeff_a() -> Self::BaseField;
    fn coeff_d() -> Self::BaseField;
    fn cofactor() -> &'static [u64];
    fn generator() -> (Self::BaseField, Self::BaseField);
}

pub mod group {
    use super::*;
    /// ark_ec::group::Group
    pub trait Group: ToBytes + FromBytes + Copy + Clone + Debug + Display + Default + Send + Sync + 'static + Eq + Hash
        + Neg<Output = Self> + UniformRand + Zero + Add<Self, Output = Self> + Sub<Self, Output = Self>
        + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self>
        + AddAssign<Self> + SubAssign<Self> + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self>
    {
        type ScalarField: PrimeField + Into<<Self::ScalarField as PrimeField>::BigInt>;
        fn double(&self) -> Self;
        fn double_in_place(&mut self) -> &mut Self;
        fn mul<'a>(&self, other: &'a Self::ScalarField) -> Self {
            let mut c = *self; c.mul_assign_scalar(other); c
        }
        fn mul_assign_scalar<'a>(&mut self, other: &'a Self::ScalarField) {
            crate::probe::scalar(other.into_repr().as_ref());
            let mut res = Self::zero();
            for i in BitIteratorBE::without_leading_zeros(other.into_repr()) { res.double_in_place(); if i { res += *self; } }
            *self = res;
        }
    }
    impl<G: ProjectiveCurve> Group for G {
        type ScalarField = G::ScalarField;
        fn double(&self) -> Self { let mut c = *self; <G as ProjectiveCurve>::double_in_place(&mut c); c }
        fn double_in_place(&mut self) -> &mut Self { <G as ProjectiveCurve>::double_in_place(self) }
    }
}

pub trait ProjectiveCurve: Eq + 'static + Sized + ToBytes + FromBytes + Copy + Clone + Default + Send + Sync + Hash + Debug + Display
    + UniformRand + Zero + Neg<Output = Self> + Add<Self, Output = Self> + Sub<Self, Output = Self>
    + AddAssign<Self> + SubAssign<Self> + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + MulAssign<<Self as ProjectiveCurve>::ScalarField>
    + std::iter::Sum<Self> + for<'a> std::iter::Sum<&'a Self> + From<<Self as ProjectiveCurve>::Affine>
    + CanonicalSerialize + CanonicalDeserialize
{
    const COFACTOR: &'static [u64];
    type ScalarField: PrimeField + SquareRootField + Into<<Self::ScalarField as PrimeField>::BigInt>;
    type BaseField: Field;
    type Affine: AffineCurve<Projective = Self, ScalarField = Self::ScalarField, BaseField = Self::BaseField> + From<Self> + Into<Self>;
    fn prime_subgroup_generator() -> Self;
    fn batch_normalization(v: &mut [Self]);
    fn batch_normalization_into_affine(v: &[Self]) -> Vec<Self::Affine> { v.iter().map(|p| p.into_affine()).collect() }
    fn is_normalized(&self) -> bool;
    fn double(&self) -> Self { let mut c = *self; c.double_in_place(); c }
    fn double_in_place(&mut self) -> &mut Self;
    fn into_affine(&self) -> Self::Affine { (*self).into() }
    fn add_mixed(mut self, o: &Self::Affine) -> Self { self.add_assign_mixed(o); self }
    fn add_assign_mixed(&mut self, o: &Self::Affine);
    fn mul<S: AsRef<[u64]>>(mut self, other: S) -> Self {
        crate::probe::scalar(other.as_ref());
        let mut res = Self::zero();
        for b in BitIteratorBE::without_leading_zeros(other) { res.double_in_place(); if b { res += self; } }
        self = res; self
    }
}
pub trait AffineCurve: Eq + 'static + Sized + ToBytes + FromBytes + CanonicalSerialize + CanonicalDeserialize + Copy + Clone + Default
    + Send + Sync + Hash + Debug + Display + Zero + Neg<Output = Self> + From<<Self as AffineCurve>::Projective>
{
    const COFACTOR: &'static [u64];
    type ScalarField: PrimeField + SquareRootField + Into<<Self::ScalarField as PrimeField>::BigInt>;
    type BaseField: Field;
    type Projective: ProjectiveCurve<Affine = Self, ScalarField = Self::ScalarField, BaseField = Self::BaseField> + From<Self> + Into<Self>;
    fn prime_subgroup_generator() -> Self;
    fn from_random_bytes(bytes: &[u8]) -> Option<Self>;
    fn mul<S: Into<<Self::ScalarField as PrimeField>::BigInt>>(&self, other: S) -> Self::Projective;
    fn mul_by_cofactor_to_projective(&self) -> Self::Projective;
    fn into_projective(&self) -> Self::Projective { (*self).into() }
    fn mul_by_cofactor(&self) -> Self { self.mul_by_cofactor_to_projective().into() }
    fn mul_by_cofactor_inv(&self) -> Self;
}

pub mod short_weierstrass_jacobian {
    use super::*;
    pub struct GroupAffine<P: SWModelParameters> { pub x: P::BaseField, pub y: P::BaseField, pub infinity: bool, pub _params: PhantomData<P> }
    pub struct GroupProjective<P: SWModelParameters> { pub x: P::BaseField, pub y: P::BaseField, pub z: P::BaseField, pub _params: PhantomData<P> }
    type A<P> = GroupAffine<P>;
    type J<P> = GroupProjective<P>;
    impl<P: SWModelParameters> Clone for A<P> { fn clone(&self) -> Self { *self } }
    impl<P: SWModelParameters> Copy for A<P> {}
    impl<P: SWModelParameters> PartialEq for A<P> { fn eq(&self, o: &Self) -> bool { self.x == o.x && self.y == o.y && self.infinity == o.infinity } }
    impl<P: SWModelParameters> Eq for A<P> {}
    impl<P: SWModelParameters> Hash for A<P> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.x.hash(h); self.y.hash(h); self.infinity.hash(h) } }
    impl<P: SWModelParameters> Debug for A<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Display::fmt(self, f) } }
    impl<P: SWModelParameters> Display for A<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { if self.infinity { write!(f, "GroupAffine(Infinity)") } else { write!(f, "GroupAffine(x={}, y={})", self.x, self.y) } } }
    impl<P: SWModelParameters> Default for A<P> { fn default() -> Self { Self::zero() } }
    impl<P: SWModelParameters> A<P> {
        pub fn new(x: P::BaseField, y: P::BaseField, infinity: bool) -> Self { A { x, y, infinity, _params: PhantomData } }
        pub fn scale_by_cofactor(&self) -> J<P> { self.mul_bits(BitIteratorBE::new(P::cofactor())) }
        pub fn mul_bits(&self, bits: impl Iterator<Item = bool>) -> J<P> {
            let mut res = J::zero();
            for i in bits.skip_while(|b| !b) { res.double_in_place(); if i { res.add_assign_mixed(self) } }
            res
        }
        /// the point with the given x, choosing the lexicographically greatest y iff `greatest`
        pub fn get_point_from_x(x: P::BaseField, greatest: bool) -> Option<Self> {
            let x3b = P::add_b(&(x.square() * x + P::mul_by_a(&x)));
            x3b.sqrt().map(|y| { let n = -y; let y = if (y < n) ^ greatest { y } else { n }; Self::new(x, y, false) })
        }
        pub fn is_on_curve(&self) -> bool {
            self.infinity || self.y.square() == P::add_b(&(self.x.square() * self.x + P::mul_by_a(&self.x)))
        }
        pub fn is_in_correct_subgroup_assuming_on_curve(&self) -> bool { self.mul_bits(BitIteratorBE::new(<P::ScalarField as PrimeField>::char())).is_zero() }
    }
    impl<P: SWModelParameters> Zero for A<P> {
        fn zero() -> Self { A::new(P::BaseField::zero(), P::BaseField::one(), true) }
        fn is_zero(&self) -> bool { self.infinity }
    }
    impl<P: SWModelParameters> Add<Self> for A<P> { type Output = Self; fn add(self, o: Self) -> Self { let mut s = self; s += &o; s } }
    impl<'a, P: SWModelParameters> AddAssign<&'a Self> for A<P> { fn add_assign(&mut self, o: &'a Self) { let mut s: J<P> = (*self).into(); s.add_assign_mixed(o); *self = s.into() } }
    impl<P: SWModelParameters> Neg for A<P> { type Output = Self; fn neg(self) -> Self { if self.is_zero() { self } else { A::new(self.x, -self.y, false) } } }
    impl<P: SWModelParameters> From<J<P>> for A<P> {
        fn from(p: J<P>) -> Self {
            if p.is_zero() { A::zero() } else if p.z.is_one() { A::new(p.x, p.y, false) }
            else { let zi = p.z.inverse().unwrap(); let z2 = zi.square(); A::new(p.x * z2, p.y * (z2 * zi), false) }
        }
    }
    impl<P: SWModelParameters> AffineCurve for A<P> {
        const COFACTOR: &'static [u64] = &[];
        type ScalarField = P::ScalarField; type BaseField = P::BaseField; type Projective = J<P>;
        fn prime_subgroup_generator() -> Self { let (x, y) = P::generator(); A::new(x, y, false) }
        fn from_random_bytes(bytes: &[u8]) -> Option<Self> {
            P::BaseField::from_random_bytes_with_flags::<SWFlags>(bytes).and_then(|(x, f)| {
                if x.is_zero() && f.is_infinity() { Some(Self::zero()) }
                else if let Some(p) = f.is_positive() { Self::get_point_from_x(x, p) } else { None }
            })
        }
        fn mul<S: Into<<Self::ScalarField as PrimeField>::BigInt>>(&self, by: S) -> J<P> { let by = by.into(); crate::probe::scalar(by.as_ref()); self.mul_bits(BitIteratorBE::new(by)) }
        fn mul_by_cofactor_to_projective(&self) -> J<P> { self.scale_by_cofactor() }
        fn mul_by_cofactor_inv(&self) -> Self { AffineCurve::mul(self, P::cofactor_inv()).into() }
    }
    impl<P: SWModelParameters> ToBytes for A<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.x.write(&mut w)?; self.y.write(&mut w)?; self.infinity.write(w) } }
    impl<P: SWModelParameters> FromBytes for A<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { let x = P::BaseField::read(&mut r)?; let y = P::BaseField::read(&mut r)?; let i = u8::read(r)? != 0; Ok(A::new(x, y, i)) } }
    impl<P: SWModelParameters> CanonicalSerialize for A<P> {
        fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
            if self.is_zero() { P::BaseField::zero().serialize_with_flags(w, SWFlags::infinity()) }
            else { self.x.serialize_with_flags(w, SWFlags::from_y_sign(self.y > -self.y)) }
        }
        fn serialized_size(&self) -> usize { P::BaseField::zero().serialized_size_with_flags::<SWFlags>() }
        fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
            let f = if self.is_zero() { SWFlags::infinity() } else { SWFlags::default() };
            self.x.serialize(&mut w)?; self.y.serialize_with_flags(w, f)
        }
        fn uncompressed_size(&self) -> usize { self.x.serialized_size() + self.y.serialized_size_with_flags::<SWFlags>() }
    }
    impl<P: SWModelParameters> CanonicalDeserialize for A<P> {
        fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
            let (x, f): (P::BaseField, SWFlags) = CanonicalDeserializeWithFlags::deserialize_with_flags(r)?;
            if f.is_infinity() { return Ok(Self::zero()); }
            let p = Self::get_point_from_x(x, f.is_positive().unwrap()).ok_or(SerializationError::InvalidData)?;
            if !p.is_in_correct_subgroup_assuming_on_curve() { return Err(SerializationError::InvalidData); }
            Ok(p)
        }
        fn deserialize_uncompressed<R: Read>(r: R) -> Result<Self, SerializationError> {
            let p = Self::deserialize_unchecked(r)?;
            if !p.is_in_correct_subgroup_assuming_on_curve() { return Err(SerializationError::InvalidData); }
            Ok(p)
        }
        fn deserialize_unchecked<R: Read>(mut r: R) -> Result<Self, SerializationError> {
            let x: P::BaseField = CanonicalDeserialize::deserialize(&mut r)?;
            let (y, f): (P::BaseField, SWFlags) = CanonicalDeserializeWithFlags::deserialize_with_flags(&mut r)?;
            Ok(A::new(x, y, f.is_infinity()))
        }
    }
    impl<P: SWModelParameters> Distribution<A<P>> for Standard {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> A<P> { let p: J<P> = rng.sample(Standard); p.into() }
    }

    impl<P: SWModelParameters> Clone for J<P> { fn clone(&self) -> Self { *self } }
    impl<P: SWModelParameters> Copy for J<P> {}
    impl<P: SWModelParameters> Hash for J<P> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { let a = self.into_affine(); a.hash(h) } }
    impl<P: SWModelParameters> Debug for J<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Display::fmt(&self.into_affine(), f) } }
    impl<P: SWModelParameters> Display for J<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Display::fmt(&self.into_affine(), f) } }
    impl<P: SWModelParameters> PartialEq for J<P> {
        fn eq(&self, o: &Self) -> bool {
            if self.is_zero() { return o.is_zero(); }
            if o.is_zero() { return false; }
            let (z1, z2) = (self.z.square(), o.z.square());
            self.x * z2 == o.x * z1 && self.y * (z2 * o.z) == o.y * (z1 * self.z)
        }
    }
    impl<P: SWModelParameters> Eq for J<P> {}
    impl<P: SWModelParameters> PartialEq<A<P>> for J<P> { fn eq(&self, o: &A<P>) -> bool { *self == J::from(*o) } }
    impl<P: SWModelParameters> PartialEq<J<P>> for A<P> { fn eq(&self, o: &J<P>) -> bool { *o == J::from(*self) } }
    impl<P: SWModelParameters> Default for J<P> { fn default() -> Self { Self::zero() } }
    impl<P: SWModelParameters> J<P> { pub fn new(x: P::BaseField, y: P::BaseField, z: P::BaseField) -> Self { J { x, y, z, _params: PhantomData } } }
    impl<P: SWModelParameters> Zero for J<P> {
        fn zero() -> Self { J::new(P::BaseField::one(), P::BaseField::one(), P::BaseField::zero()) }
        fn is_zero(&self) -> bool { self.z.is_zero() }
    }
    impl<P: SWModelParameters> From<A<P>> for J<P> { fn from(p: A<P>) -> Self { if p.is_zero() { Self::zero() } else { J::new(p.x, p.y, P::BaseField::one()) } } }
    impl<P: SWModelParameters> Neg for J<P> { type Output = Self; fn neg(self) -> Self { J::new(self.x, -self.y, self.z) } }
    impl<'a, P: SWModelParameters> AddAssign<&'a Self> for J<P> {
        fn add_assign(&mut self, o: &'a Self) {
            if self.is_zero() { *self = *o; return; }
            if o.is_zero() { return; }
            // add-2007-bl
            let z1z1 = self.z.square(); let z2z2 = o.z.square();
            let u1 = self.x * z2z2; let u2 = o.x * z1z1;
            let s1 = self.y * o.z * z2z2; let s2 = o.y * self.z * z1z1;
            if u1 == u2 && s1 == s2 { self.double_in_place(); return; }
            let h = u2 - u1; let i = h.double().square(); let j = h * i;
            let r = (s2 - s1).double(); let v = u1 * i;
            let x3 = r.square() - j - v.double();
            self.y = r * (v - x3) - (s1 * j).double();
            self.z = ((self.z + o.z).square() - z1z1 - z2z2) * h;
            self.x = x3;
        }
    }
    impl<'a, P: SWModelParameters> SubAssign<&'a Self> for J<P> { fn sub_assign(&mut self, o: &'a Self) { *self += &(-*o); } }
    impl<P: SWModelParameters> AddAssign<Self> for J<P> { fn add_assign(&mut self, o: Self) { *self += &o; } }
    impl<P: SWModelParameters> SubAssign<Self> for J<P> { fn sub_assign(&mut self, o: Self) { *self -= &o; } }
    impl<'a, P: SWModelParameters> Add<&'a Self> for J<P> { type Output = Self; fn add(mut self, o: &'a Self) -> Self { self += o; self } }
    impl<'a, P: SWModelParameters> Sub<&'a Self> for J<P> { type Output = Self; fn sub(mut self, o: &'a Self) -> Self { self -= o; self } }
    impl<P: SWModelParameters> Add<Self> for J<P> { type Output = Self; fn add(mut self, o: Self) -> Self { self += &o; self } }
    impl<P: SWModelParameters> Sub<Self> for J<P> { type Output = Self; fn sub(mut self, o: Self) -> Self { self -= &o; self } }
    impl<P: SWModelParameters> MulAssign<P::ScalarField> for J<P> { fn mul_assign(&mut self, o: P::ScalarField) { *self = ProjectiveCurve::mul(*self, o.into_repr()); } }
    impl<P: SWModelParameters> std::iter::Sum<J<P>> for J<P> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
    impl<'a, P: SWModelParameters> std::iter::Sum<&'a J<P>> for J<P> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
    impl<P: SWModelParameters> ProjectiveCurve for J<P> {
        const COFACTOR: &'static [u64] = &[];
        type ScalarField = P::ScalarField; type BaseField = P::BaseField; type Affine = A<P>;
        fn prime_subgroup_generator() -> Self { A::<P>::prime_subgroup_generator().into() }
        fn batch_normalization(v: &mut [Self]) { for p in v.iter_mut() { let a: A<P> = (*p).into(); *p = a.into(); } }
        fn is_normalized(&self) -> bool { self.is_zero() || self.z.is_one() }
        fn double_in_place(&mut self) -> &mut Self {
            if self.is_zero() { return self; }
            if P::coeff_a().is_zero() {
                // dbl-2009-l
                let a = self.x.square(); let b = self.y.square(); let c = b.square();
                let d = ((self.x + b).square() - a - c).double();
                let e = a + a.double(); let f = e.square();
                self.z = (self.z * self.y).double();
                self.x = f - d.double();
                self.y = (d - self.x) * e - c.double().double().double();
            } else {
                let xx = self.x.square(); let yy = self.y.square(); let y4 = yy.square(); let zz = self.z.square();
                let s = ((self.x + yy).square() - xx - y4).double();
                let m = xx + xx + xx + P::mul_by_a(&zz.square());
                let t = m.square() - s.double();
                self.z = (self.z + self.y).square() - yy - zz;
                self.y = m * (s - t) - y4.double().double().double();
                self.x = t;
            }
            self
        }
        fn add_assign_mixed(&mut self, o: &A<P>) {
            if o.is_zero() { return; }
            if self.is_zero() { *self = (*o).into(); return; }
            // madd-2007-bl
            let z1z1 = self.z.square(); let u2 = o.x * z1z1; let s2 = (self.z * o.y) * z1z1;
            if self.x == u2 && self.y == s2 { self.double_in_place(); return; }
            let h = u2 - self.x; let hh = h.square(); let i = hh.double().double(); let j = h * i;
            let r = (s2 - self.y).double(); let v = self.x * i;
            let x3 = r.square() - j - v.double();
            let y3 = r * (v - x3) - (self.y * j).double();
            self.z = (self.z + h).square() - z1z1 - hh;
            self.x = x3; self.y = y3;
        }
    }
    impl<P: SWModelParameters> ToBytes for J<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.x.write(&mut w)?; self.y.write(&mut w)?; self.z.write(w) } }
    impl<P: SWModelParameters> FromBytes for J<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { let x = P::BaseField::read(&mut r)?; let y = P::BaseField::read(&mut r)?; let z = P::BaseField::read(r)?; Ok(J::new(x, y, z)) } }
    impl<P: SWModelParameters> CanonicalSerialize for J<P> {
        fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.into_affine().serialize(w) }
        fn serialized_size(&self) -> usize { self.into_affine().serialized_size() }
        fn serialize_uncompressed<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.into_affine().serialize_uncompressed(w) }
        fn uncompressed_size(&self) -> usize { self.into_affine().uncompressed_size() }
    }
    impl<P: SWModelParameters> CanonicalDeserialize for J<P> {
        fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(A::<P>::deserialize(r)?.into()) }
        fn deserialize_uncompressed<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(A::<P>::deserialize_uncompressed(r)?.into()) }
        fn deserialize_unchecked<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(A::<P>::deserialize_unchecked(r)?.into()) }
    }
    impl<P: SWModelParameters> Distribution<J<P>> for Standard {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> J<P> {
            loop { let x = P::BaseField::rand(rng); let g = rng.gen(); if let Some(p) = A::<P>::get_point_from_x(x, g) { return p.scale_by_cofactor(); } }
        }
    }
    impl<P: SWModelParameters> crate::ff::ToConstraintField<<P::BaseField as Field>::BasePrimeField> for J<P> where P::BaseField: ToConstraintField<<P::BaseField as Field>::BasePrimeField> {
        fn to_field_elements(&self) -> Option<Vec<<P::BaseField as Field>::BasePrimeField>> { self.into_affine().to_field_elements() }
    }
    impl<P: SWModelParameters> crate::ff::ToConstraintField<<P::BaseField as Field>::BasePrimeField> for A<P> where P::BaseField: ToConstraintField<<P::BaseField as Field>::BasePrimeField> {
        fn to_field_elements(&self) -> Option<Vec<<P::BaseField as Field>::BasePrimeField>> { let mut x = self.x.to_field_elements()?; x.extend(self.y.to_field_elements()?); Some(x) }
    }
}

pub mod twisted_edwards_extended {
    use super::*;
    pub struct GroupAffine<P: TEModelParameters> { pub x: P::BaseField, pub y: P::BaseField, _p: PhantomData<P> }
    /// extended projective coordinates, as in arkworks (X, Y, T, Z)
    pub struct GroupProjective<P: TEModelParameters> { pub x: P::BaseField, pub y: P::BaseField, pub t: P::BaseField, pub z: P::BaseField, _p: PhantomData<P> }
    type A<P> = GroupAffine<P>;
    type J<P> = GroupProjective<P>;
    impl<P: TEModelParameters> Clone for A<P> { fn clone(&self) -> Self { *self } }
    impl<P: TEModelParameters> Copy for A<P> {}
    impl<P: TEModelParameters> PartialEq for A<P> { fn eq(&self, o: &Self) -> bool { self.x == o.x && self.y == o.y } }
    impl<P: TEModelParameters> Eq for A<P> {}
    impl<P: TEModelParameters> Hash for A<P> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.x.hash(h); self.y.hash(h) } }
    impl<P: TEModelParameters> Debug for A<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "TE({}, {})", self.x, self.y) } }
    impl<P: TEModelParameters> Display for A<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "TE({}, {})", self.x, self.y) } }
    impl<P: TEModelParameters> Default for A<P> { fn default() -> Self { Self::zero() } }
    impl<P: TEModelParameters> A<P> {
        pub fn new(x: P::BaseField, y: P::BaseField) -> Self { A { x, y, _p: PhantomData } }
        pub fn zero() -> Self { A::new(P::BaseField::zero(), P::BaseField::one()) }
        pub fn get_point_from_x(x: P::BaseField, greatest: bool) -> Option<Self> {
            let x2 = x.square();
            let num = P::coeff_a() * x2 - P::BaseField::one();
            let den = P::coeff_d() * x2 - P::BaseField::one();
            let y2 = den.inverse().map(|d| d * num)?;
            y2.sqrt().map(|y| { let n = -y; let y = if (y < n) ^ greatest { y } else { n }; A::new(x, y) })
        }
        pub fn is_on_curve(&self) -> bool {
            let (x2, y2) = (self.x.square(), self.y.square());
            y2 + P::coeff_a() * x2 == P::BaseField::one() + P::coeff_d() * x2 * y2
        }
        pub fn into_projective(&self) -> J<P> { (*self).into() }
    }
    impl<P: TEModelParameters> From<A<P>> for J<P> { fn from(a: A<P>) -> Self { J::new(a.x, a.y, a.x * a.y, P::BaseField::one()) } }
    impl<P: TEModelParameters> From<J<P>> for A<P> { fn from(p: J<P>) -> Self { p.into_affine() } }
    impl<P: TEModelParameters> Clone for J<P> { fn clone(&self) -> Self { *self } }
    impl<P: TEModelParameters> Copy for J<P> {}
    impl<P: TEModelParameters> PartialEq for J<P> { fn eq(&self, o: &Self) -> bool { self.x * o.z == o.x * self.z && self.y * o.z == o.y * self.z } }
    impl<P: TEModelParameters> Eq for J<P> {}
    impl<P: TEModelParameters> Hash for J<P> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.into_affine().hash(h) } }
    impl<P: TEModelParameters> Debug for J<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Debug::fmt(&self.into_affine(), f) } }
    impl<P: TEModelParameters> Display for J<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Debug::fmt(&self.into_affine(), f) } }
    impl<P: TEModelParameters> Default for J<P> { fn default() -> Self { Self::zero() } }
    impl<P: TEModelParameters> J<P> {
        pub fn new(x: P::BaseField, y: P::BaseField, t: P::BaseField, z: P::BaseField) -> Self { J { x, y, t, z, _p: PhantomData } }
        pub fn mul_bits<S: AsRef<[u64]>>(&self, s: S) -> Self {
            let mut r = Self::zero();
            for b in BitIteratorBE::without_leading_zeros(s) { r = r + r; if b { r += self; } }
            r
        }
        fn affine(&self) -> A<P> { let zi = self.z.inverse().unwrap(); A::new(self.x * zi, self.y * zi) }
    }
    impl<P: TEModelParameters> Zero for J<P> {
        fn zero() -> Self { J::new(P::BaseField::zero(), P::BaseField::one(), P::BaseField::zero(), P::BaseField::one()) }
        fn is_zero(&self) -> bool { self.x.is_zero() && self.y == self.z && !self.y.is_zero() && self.t.is_zero() }
    }
    impl<P: TEModelParameters> Neg for J<P> { type Output = Self; fn neg(self) -> Self { J::new(-self.x, self.y, -self.t, self.z) } }
    impl<'a, P: TEModelParameters> AddAssign<&'a Self> for J<P> {
        fn add_assign(&mut self, o: &'a Self) {
            // unified addition add-2008-hwcd
            let a = self.x * o.x; let b = self.y * o.y; let c = P::coeff_d() * self.t * o.t; let d = self.z * o.z;
            let e = (self.x + self.y) * (o.x + o.y) - a - b;
            let f = d - c; let g = d + c; let h = b - P::coeff_a() * a;
            *self = J::new(e * f, g * h, e * h, f * g);
        }
    }
    impl<'a, P: TEModelParameters> SubAssign<&'a Self> for J<P> { fn sub_assign(&mut self, o: &'a Self) { *self += &(-*o); } }
    impl<P: TEModelParameters> AddAssign<Self> for J<P> { fn add_assign(&mut self, o: Self) { *self += &o; } }
    impl<P: TEModelParameters> SubAssign<Self> for J<P> { fn sub_assign(&mut self, o: Self) { *self -= &o; } }
    impl<P: TEModelParameters> Add<Self> for J<P> { type Output = Self; fn add(mut self, o: Self) -> Self { self += &o; self } }
    impl<P: TEModelParameters> Sub<Self> for J<P> { type Output = Self; fn sub(mut self, o: Self) -> Self { self -= &o; self } }
    impl<'a, P: TEModelParameters> Add<&'a Self> for J<P> { type Output = Self; fn add(mut self, o: &'a Self) -> Self { self += o; self } }
    impl<'a, P: TEModelParameters> Sub<&'a Self> for J<P> { type Output = Self; fn sub(mut self, o: &'a Self) -> Self { self -= o; self } }
    impl<P: TEModelParameters> MulAssign<P::ScalarField> for J<P> { fn mul_assign(&mut self, o: P::ScalarField) { *self = self.mul_bits(o.into_repr()); } }
    impl<P: TEModelParameters> std::iter::Sum<J<P>> for J<P> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
    impl<'a, P: TEModelParameters> std::iter::Sum<&'a J<P>> for J<P> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
    impl<P: TEModelParameters> Distribution<J<P>> for Standard {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> J<P> {
            loop { let x = P::BaseField::rand(rng); let g = rng.gen(); if let Some(p) = A::<P>::get_point_from_x(x, g) { return p.into_projective().mul_bits(P::cofactor()); } }
        }
    }
    impl<P: TEModelParameters> ToBytes for J<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { let a = self.affine(); a.x.write(&mut w)?; a.y.write(w) } }
    impl<P: TEModelParameters> FromBytes for J<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { let x = P::BaseField::read(&mut r)?; let y = P::BaseField::read(r)?; Ok(A::new(x, y).into()) } }
    impl<P: TEModelParameters> CanonicalSerialize for A<P> {
        fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.x.serialize_with_flags(w, SWFlags::from_y_sign(self.y > -self.y)) }
        fn serialized_size(&self) -> usize { self.x.serialized_size_with_flags::<SWFlags>() }
    }
    impl<P: TEModelParameters> CanonicalDeserialize for A<P> {
        fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
            let (x, f): (P::BaseField, SWFlags) = CanonicalDeserializeWithFlags::deserialize_with_flags(r)?;
            Self::get_point_from_x(x, f == SWFlags::PositiveY).ok_or(SerializationError::InvalidData)
        }
    }
    impl<P: TEModelParameters> CanonicalSerialize for J<P> {
        fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.affine().serialize(w) }
        fn serialized_size(&self) -> usize { self.x.serialized_size_with_flags::<SWFlags>() }
    }
    impl<P: TEModelParameters> CanonicalDeserialize for J<P> {
        fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(A::<P>::deserialize(r)?.into()) }
    }
    impl<P: TEModelParameters> ToBytes for A<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.x.write(&mut w)?; self.y.write(w) } }
    impl<P: TEModelParameters> FromBytes for A<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { let x = P::BaseField::read(&mut r)?; let y = P::BaseField::read(r)?; Ok(A::new(x, y)) } }
    impl<P: TEModelParameters> Zero for A<P> { fn zero() -> Self { A::new(P::BaseField::zero(), P::BaseField::one()) } fn is_zero(&self) -> bool { self.x.is_zero() && self.y.is_one() } }
    impl<P: TEModelParameters> Add<Self> for A<P> { type Output = Self; fn add(self, o: Self) -> Self { let mut p: J<P> = self.into(); p += &o.into(); p.into() } }
    impl<P: TEModelParameters> Neg for A<P> { type Output = Self; fn neg(self) -> Self { A::new(-self.x, self.y) } }
    impl<P: TEModelParameters> AffineCurve for A<P> {
        const COFACTOR: &'static [u64] = &[];
        type ScalarField = P::ScalarField; type BaseField = P::BaseField; type Projective = J<P>;
        fn prime_subgroup_generator() -> Self { let (x, y) = P::generator(); A::new(x, y) }
        fn from_random_bytes(_: &[u8]) -> Option<Self> { unimplemented!() }
        fn mul<S: Into<<Self::ScalarField as PrimeField>::BigInt>>(&self, by: S) -> J<P> { J::from(*self).mul_bits(by.into()) }
        fn mul_by_cofactor_to_projective(&self) -> J<P> { J::from(*self).mul_bits(P::cofactor()) }
        fn mul_by_cofactor_inv(&self) -> Self { unimplemented!() }
    }
    impl<P: TEModelParameters> ProjectiveCurve for J<P> {
        const COFACTOR: &'static [u64] = &[];
        type ScalarField = P::ScalarField; type BaseField = P::BaseField; type Affine = A<P>;
        fn prime_subgroup_generator() -> Self { A::<P>::prime_subgroup_generator().into() }
        fn batch_normalization(v: &mut [Self]) { for p in v.iter_mut() { *p = p.affine().into(); } }
        fn is_normalized(&self) -> bool { self.z.is_one() }
        fn double_in_place(&mut self) -> &mut Self { let c = *self; *self += &c; self }
        fn into_affine(&self) -> A<P> { self.affine() }
        fn add_assign_mixed(&mut self, o: &A<P>) { *self += &J::from(*o); }
    }
}

pub trait PairingEngine: Sized + 'static + Copy + Debug + Sync + Send + Eq + PartialEq {
    type Fr: PrimeField + SquareRootField + Into<<Self::Fr as PrimeField>::BigInt>;
    type G1Projective: ProjectiveCurve<BaseField = Self::Fq, ScalarField = Self::Fr, Affine = Self::G1Affine> + From<Self::G1Affine> + Into<Self::G1Affine> + MulAssign<Self::Fr>;
    type G1Affine: AffineCurve<BaseField = Self::Fq, ScalarField = Self::Fr, Projective = Self::G1Projective> + From<Self::G1Projective> + Into<Self::G1Projective> + Into<Self::G1Prepared>;
    type G1Prepared: Default + Clone + Send + Sync + Debug + From<Self::G1Affine>;
    type G2Projective: ProjectiveCurve<BaseField = Self::Fqe, ScalarField = Self::Fr, Affine = Self::G2Affine> + From<Self::G2Affine> + Into<Self::G2Affine> + MulAssign<Self::Fr>;
    type G2Affine: AffineCurve<BaseField = Self::Fqe, ScalarField = Self::Fr, Projective = Self::G2Projective> + From<Self::G2Projective> + Into<Self::G2Projective> + Into<Self::G2Prepared>;
    type G2Prepared: Default + Clone + Send + Sync + Debug + From<Self::G2Affine>;
    type Fq: PrimeField + SquareRootField;
    type Fqe: SquareRootField;
    type Fqk: Copy + Clone + Debug + Display + Eq + One + Zero + for<'a> Mul<&'a Self::Fqk, Output = Self::Fqk> + MulAssign + for<'a> MulAssign<&'a Self::Fqk>;
    fn miller_loop<'a, I>(i: I) -> Self::Fqk where I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)>;
    fn final_exponentiation(f: &Self::Fqk) -> Option<Self::Fqk>;
    fn product_of_pairings<'a, I>(i: I) -> Self::Fqk where I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)> {
        Self::final_exponentiation(&Self::miller_loop(i)).unwrap()
    }
    fn pairing<G1: Into<Self::G1Affine>, G2: Into<Self::G2Affine>>(p: G1, q: G2) -> Self::Fqk {
        let v = (Self::G1Prepared::from(p.into()), Self::G2Prepared::from(q.into()));
        Self::product_of_pairings(std::iter::once(&v))
    }
}

pub mod bls12 {
    use super::*;
    pub trait Bls12Parameters: 'static {
        type Fp: PrimeField + SquareRootField + Into<<Self::Fp as PrimeField>::BigInt>;
        type Fp2Params: Fp2Parameters<Fp = Self::Fp>;
        type G1Parameters: SWModelParameters<BaseField = Self::Fp>;
        type G2Parameters: SWModelParameters<BaseField = Fp2<Self::Fp2Params>, ScalarField = <Self::G1Parameters as ModelParameters>::ScalarField>;
    }
    pub type G1Affine<P> = short_weierstrass_jacobian::GroupAffine<<P as Bls12Parameters>::G1Parameters>;
    pub type G1Projective<P> = short_weierstrass_jacobian::GroupProjective<<P as Bls12Parameters>::G1Parameters>;
    pub type G2Affine<P> = short_weierstrass_jacobian::GroupAffine<<P as Bls12Parameters>::G2Parameters>;
    pub type G2Projective<P> = short_weierstrass_jacobian::GroupProjective<<P as Bls12Parameters>::G2Parameters>;
}
pub mod models {
    pub use super::{bls12, short_weierstrass_jacobian, twisted_edwards_extended, ModelParameters, SWModelParameters, TEModelParameters};
}
pub mod msm {
    use super::*;
    pub struct VariableBaseMSM;
    impl VariableBaseMSM {
        pub fn multi_scalar_mul<G: AffineCurve>(bases: &[G], scalars: &[<G::ScalarField as PrimeField>::BigInt]) -> G::Projective {
            crate::probe::msm(scalars.iter().map(|s| s.as_ref().to_vec()).collect());
            let mut r = G::Projective::zero();
            for (b, s) in bases.iter().zip(scalars) { r += b.mul(*s); }
            r
        }
    }
}
