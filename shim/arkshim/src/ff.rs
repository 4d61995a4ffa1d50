//! Finite fields: the traits of ark-ff 0.2, a generic Montgomery prime field, quadratic and the
//! Fp12 tower needed for the pairing.
pub use crate::bigint::*;
use crate::serialize::*;
pub use num_traits::{One, Zero};
use rand::{distributions::{Distribution, Standard}, Rng};
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display};
use std::hash::Hash;
use std::io::{Read, Result as IoResult, Write};
use std::marker::PhantomData;
use std::ops::*;

pub trait ToBytes { fn write<W: Write>(&self, writer: W) -> IoResult<()>; }
pub trait FromBytes: Sized { fn read<R: Read>(reader: R) -> IoResult<Self>; }
impl ToBytes for [u8] { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { w.write_all(self) } }
impl ToBytes for Vec<u8> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { w.write_all(self) } }
impl<const N: usize> ToBytes for [u8; N] { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { w.write_all(self) } }
impl<'a, T: ToBytes + ?Sized> ToBytes for &'a T { fn write<W: Write>(&self, w: W) -> IoResult<()> { (*self).write(w) } }
macro_rules! tb { ($($t:ty),*) => {$(
    impl ToBytes for $t { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { w.write_all(&self.to_le_bytes()) } }
    impl FromBytes for $t { fn read<R: Read>(mut r: R) -> IoResult<Self> {
        let mut b = [0u8; std::mem::size_of::<$t>()]; r.read_exact(&mut b)?; Ok(<$t>::from_le_bytes(b)) } }
)*}}
tb!(u8, u16, u32, u64, u128);
impl FromBytes for bool { fn read<R: Read>(r: R) -> IoResult<Self> { match u8::read(r)? { 0 => Ok(false), 1 => Ok(true), _ => Err(std::io::Error::new(std::io::ErrorKind::Other, "FromBytes::read failed")) } } }
impl ToBytes for bool { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { w.write_all(&[*self as u8]) } }

pub trait UniformRand: Sized { fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self; }
impl<T> UniformRand for T where Standard: Distribution<T> {
    fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self { rng.sample(Standard) }
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum LegendreSymbol { Zero = 0, QuadraticResidue = 1, QuadraticNonResidue = -1 }
impl LegendreSymbol {
    pub fn is_zero(&self) -> bool { *self == Self::Zero }
    pub fn is_qnr(&self) -> bool { *self == Self::QuadraticNonResidue }
    pub fn is_qr(&self) -> bool { *self == Self::QuadraticResidue }
}

pub trait Field:
    ToBytes + FromBytes + Copy + Clone + Debug + Display + Default + Send + Sync + Eq + Ord + Neg<Output = Self>
    + UniformRand + Zero + One + Sized + Hash + CanonicalSerialize + CanonicalSerializeWithFlags
    + CanonicalDeserialize + CanonicalDeserializeWithFlags
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + Div<Self, Output = Self>
    + AddAssign<Self> + SubAssign<Self> + MulAssign<Self> + DivAssign<Self>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self> + for<'a> Div<&'a Self, Output = Self>
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self> + for<'a> DivAssign<&'a Self>
    + std::iter::Sum<Self> + for<'a> std::iter::Sum<&'a Self>
    + std::iter::Product<Self> + for<'a> std::iter::Product<&'a Self>
    + From<u128> + From<u64> + From<u32> + From<u16> + From<u8> + From<bool> + 'static
{
    type BasePrimeField: PrimeField;
    fn characteristic<'a>() -> &'a [u64] { Self::BasePrimeField::characteristic() }
    fn extension_degree() -> u64;
    fn double(&self) -> Self { *self + *self }
    fn double_in_place(&mut self) -> &mut Self { *self = self.double(); self }
    fn square(&self) -> Self { *self * *self }
    fn square_in_place(&mut self) -> &mut Self { *self = self.square(); self }
    fn inverse(&self) -> Option<Self>;
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        if let Some(i) = self.inverse() { *self = i; Some(self) } else { None }
    }
    fn frobenius_map(&mut self, power: usize);
    fn from_random_bytes(bytes: &[u8]) -> Option<Self> { Self::from_random_bytes_with_flags::<EmptyFlags>(bytes).map(|f| f.0) }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)>;
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::one();
        let mut started = false;
        for i in BitIteratorBE::new(exp) {
            if started { res = res.square(); }
            if i { res *= *self; started = true; }
        }
        res
    }
}
pub trait SquareRootField: Field {
    fn legendre(&self) -> LegendreSymbol;
    fn sqrt(&self) -> Option<Self>;
    fn sqrt_in_place(&mut self) -> Option<&mut Self> { if let Some(s) = self.sqrt() { *self = s; Some(self) } else { None } }
}
pub trait FftParameters: 'static + Send + Sync + Sized { type BigInt: BigInteger; const TWO_ADICITY: u32; }
pub trait FpParameters: FftParameters {
    const MODULUS: Self::BigInt;
    const MODULUS_BITS: u32;
    const REPR_SHAVE_BITS: u32;
    const R: Self::BigInt;
    const R2: Self::BigInt;
    const INV: u64;
    const CAPACITY: u32;
    const T: Self::BigInt;
    const T_MINUS_ONE_DIV_TWO: Self::BigInt;
    const MODULUS_MINUS_ONE_DIV_TWO: Self::BigInt;
    /// a quadratic non-residue (small integer)
    const QNR: u64;
    fn name() -> &'static str { "Fp" }
}
pub trait PrimeField: Field<BasePrimeField = Self> + SquareRootField + std::str::FromStr + Into<<Self as PrimeField>::BigInt> + From<<Self as PrimeField>::BigInt> {
    type Params: FpParameters<BigInt = Self::BigInt>;
    type BigInt: BigInteger;
    fn from_repr(repr: Self::BigInt) -> Option<Self>;
    fn into_repr(&self) -> Self::BigInt;
    fn size_in_bits() -> usize { Self::Params::MODULUS_BITS as usize }
    fn modulus_minus_one_div_two() -> Self::BigInt { Self::Params::MODULUS_MINUS_ONE_DIV_TWO }
    fn trace() -> Self::BigInt { Self::Params::T }
    fn char() -> Self::BigInt { Self::Params::MODULUS }
    fn from_be_bytes_mod_order(bytes: &[u8]) -> Self {
        let w = Self::from(256u64);
        bytes.iter().fold(Self::zero(), |a, b| a * w + Self::from(*b))
    }
    fn from_le_bytes_mod_order(bytes: &[u8]) -> Self {
        let w = Self::from(256u64);
        bytes.iter().rev().fold(Self::zero(), |a, b| a * w + Self::from(*b))
    }
}
pub trait FftField: Field {}

pub trait ToConstraintField<F: Field> { fn to_field_elements(&self) -> Option<Vec<F>>; }
impl<F: Field> ToConstraintField<F> for [F] { fn to_field_elements(&self) -> Option<Vec<F>> { Some(self.to_vec()) } }
impl<F: PrimeField> ToConstraintField<F> for F { fn to_field_elements(&self) -> Option<Vec<F>> { Some(vec![*self]) } }
impl<F: PrimeField> ToConstraintField<F> for bool { fn to_field_elements(&self) -> Option<Vec<F>> { Some(vec![F::from(*self)]) } }
impl<F: PrimeField, const N: usize> ToConstraintField<F> for [u8; N] { fn to_field_elements(&self) -> Option<Vec<F>> { self.as_ref().to_field_elements() } }
impl<F: PrimeField> ToConstraintField<F> for Vec<u8> { fn to_field_elements(&self) -> Option<Vec<F>> { self.as_slice().to_field_elements() } }
impl<F: PrimeField> ToConstraintField<F> for [u8] {
    fn to_field_elements(&self) -> Option<Vec<F>> {
        let max = (<F as PrimeField>::Params::CAPACITY / 8) as usize;
        Some(self.chunks(max).map(|c| F::from_le_bytes_mod_order(c)).collect())
    }
}

pub struct Fp<P, const N: usize>(pub BigInt<N>, pub PhantomData<P>);
pub type Fp256<P> = Fp<P, 4>;
pub type Fp384<P> = Fp<P, 6>;
pub type Fp768<P> = Fp<P, 12>;

impl<P, const N: usize> Clone for Fp<P, N> { fn clone(&self) -> Self { *self } }
impl<P, const N: usize> Copy for Fp<P, N> {}
impl<P, const N: usize> PartialEq for Fp<P, N> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<P, const N: usize> Eq for Fp<P, N> {}
impl<P, const N: usize> Hash for Fp<P, N> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<P, const N: usize> Default for Fp<P, N> { fn default() -> Self { Fp(BigInt([0; N]), PhantomData) } }

fn geq<const N: usize>(a: &[u64; N], b: &[u64; N]) -> bool {
    for i in (0..N).rev() { if a[i] != b[i] { return a[i] > b[i]; } }
    true
}
fn sub_in<const N: usize>(a: &mut [u64; N], b: &[u64; N]) -> bool {
    let mut br = 0u64;
    for i in 0..N {
        let (t, b1) = a[i].overflowing_sub(b[i]);
        let (t, b2) = t.overflowing_sub(br);
        a[i] = t; br = (b1 | b2) as u64;
    }
    br != 0
}
fn add_in<const N: usize>(a: &mut [u64; N], b: &[u64; N]) -> u64 {
    let mut c = 0u64;
    for i in 0..N { let t = a[i] as u128 + b[i] as u128 + c as u128; a[i] = t as u64; c = (t >> 64) as u64; }
    c
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Fp<P, N> {
    pub fn new(element: BigInt<N>) -> Self { Self::from_repr(element).unwrap() }
    fn raw(v: [u64; N]) -> Self { Fp(BigInt(v), PhantomData) }
    #[inline(always)]
    fn mont_mul(a: &[u64; N], b: &[u64; N]) -> [u64; N] {
        let m = &P::MODULUS.0;
        let mut t = [0u64; N];
        let mut t_hi = 0u64; // t[N]
        for i in 0..N {
            let mut c = 0u64;
            for j in 0..N {
                let s = t[j] as u128 + a[j] as u128 * b[i] as u128 + c as u128;
                t[j] = s as u64; c = (s >> 64) as u64;
            }
            let s = t_hi as u128 + c as u128;
            t_hi = s as u64;
            let t_hi2 = (s >> 64) as u64;
            let k = t[0].wrapping_mul(P::INV);
            let s = t[0] as u128 + k as u128 * m[0] as u128;
            let mut c = (s >> 64) as u64;
            for j in 1..N {
                let s = t[j] as u128 + k as u128 * m[j] as u128 + c as u128;
                t[j - 1] = s as u64; c = (s >> 64) as u64;
            }
            let s = t_hi as u128 + c as u128;
            t[N - 1] = s as u64;
            t_hi = t_hi2 + (s >> 64) as u64;
        }
        if t_hi != 0 || geq(&t, m) { sub_in(&mut t, m); }
        t
    }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Neg for Fp<P, N> {
    type Output = Self;
    fn neg(self) -> Self { if self.is_zero() { self } else { let mut m = P::MODULUS.0; sub_in(&mut m, &self.0 .0); Self::raw(m) } }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> AddAssign<&Fp<P, N>> for Fp<P, N> {
    #[inline] fn add_assign(&mut self, o: &Self) {
        let c = add_in(&mut self.0 .0, &o.0 .0);
        if c != 0 || geq(&self.0 .0, &P::MODULUS.0) { sub_in(&mut self.0 .0, &P::MODULUS.0); }
    }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> SubAssign<&Fp<P, N>> for Fp<P, N> {
    #[inline] fn sub_assign(&mut self, o: &Self) { if sub_in(&mut self.0 .0, &o.0 .0) { add_in(&mut self.0 .0, &P::MODULUS.0); } }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> MulAssign<&Fp<P, N>> for Fp<P, N> {
    #[inline] fn mul_assign(&mut self, o: &Self) { self.0 .0 = Self::mont_mul(&self.0 .0, &o.0 .0); }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> DivAssign<&Fp<P, N>> for Fp<P, N> {
    fn div_assign(&mut self, o: &Self) { *self *= &o.inverse().unwrap(); }
}

/// derive the owned / reference operator variants from the `OpAssign<&Self>` ones
macro_rules! field_ops { ([$($g:tt)*] $t:ty) => {
    field_ops!(@one [$($g)*] $t, Add, add, AddAssign, add_assign);
    field_ops!(@one [$($g)*] $t, Sub, sub, SubAssign, sub_assign);
    field_ops!(@one [$($g)*] $t, Mul, mul, MulAssign, mul_assign);
    field_ops!(@one [$($g)*] $t, Div, div, DivAssign, div_assign);
    impl<$($g)*> std::iter::Sum<$t> for $t { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
    impl<'a, $($g)*> std::iter::Sum<&'a $t> for $t { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::zero(), |a, b| a + b) } }
    impl<$($g)*> std::iter::Product<$t> for $t { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::one(), |a, b| a * b) } }
    impl<'a, $($g)*> std::iter::Product<&'a $t> for $t { fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::one(), |a, b| a * b) } }
    };
    (@one [$($g:tt)*] $t:ty, $tr:ident, $f:ident, $tra:ident, $fa:ident) => {
    impl<$($g)*> $tra<$t> for $t { #[inline] fn $fa(&mut self, o: $t) { self.$fa(&o) } }
    impl<'b, $($g)*> $tra<&'b mut $t> for $t { #[inline] fn $fa(&mut self, o: &'b mut $t) { self.$fa(&*o) } }
    impl<$($g)*> $tr<$t> for $t { type Output = $t; #[inline] fn $f(mut self, o: $t) -> $t { self.$fa(&o); self } }
    impl<'b, $($g)*> $tr<&'b $t> for $t { type Output = $t; #[inline] fn $f(mut self, o: &'b $t) -> $t { self.$fa(o); self } }
    impl<'b, $($g)*> $tr<&'b mut $t> for $t { type Output = $t; #[inline] fn $f(mut self, o: &'b mut $t) -> $t { self.$fa(&*o); self } }
    impl<'a, $($g)*> $tr<$t> for &'a $t { type Output = $t; #[inline] fn $f(self, o: $t) -> $t { let mut s = *self; s.$fa(&o); s } }
    impl<'a, 'b, $($g)*> $tr<&'b $t> for &'a $t { type Output = $t; #[inline] fn $f(self, o: &'b $t) -> $t { let mut s = *self; s.$fa(o); s } }
    };
}
field_ops!([P: FpParameters<BigInt = BigInt<N>>, const N: usize] Fp<P, N>);

impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Zero for Fp<P, N> {
    fn zero() -> Self { Self::raw([0; N]) }
    fn is_zero(&self) -> bool { self.0 .0.iter().all(|x| *x == 0) }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> One for Fp<P, N> {
    fn one() -> Self { Fp(P::R, PhantomData) }
    fn is_one(&self) -> bool { self.0 == P::R }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Ord for Fp<P, N> {
    fn cmp(&self, o: &Self) -> Ordering { self.into_repr().cmp(&o.into_repr()) }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> PartialOrd for Fp<P, N> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Debug for Fp<P, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Display::fmt(self, f) }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Display for Fp<P, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Fp({})", self.into_repr()) }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Distribution<Fp<P, N>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Fp<P, N> {
        loop {
            let mut t: BigInt<N> = rng.sample(Standard);
            t.0[N - 1] &= u64::MAX >> P::REPR_SHAVE_BITS;
            if t < P::MODULUS { return Fp(t, PhantomData); }
        }
    }
}
macro_rules! from_ints { ($($t:ty),*) => {$(
    impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> From<$t> for Fp<P, N> {
        fn from(v: $t) -> Self { let mut r = [0u64; N]; r[0] = v as u64; Self::raw(Self::mont_mul(&r, &P::R2.0)) }
    })*}}
from_ints!(u64, u32, u16, u8, bool);
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> From<u128> for Fp<P, N> {
    fn from(v: u128) -> Self { let mut r = [0u64; N]; r[0] = v as u64; r[1] = (v >> 64) as u64; Self::raw(Self::mont_mul(&r, &P::R2.0)) }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> From<BigInt<N>> for Fp<P, N> { fn from(v: BigInt<N>) -> Self { Self::from_repr(v).unwrap() } }
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> From<Fp<P, N>> for BigInt<N> { fn from(v: Fp<P, N>) -> Self { v.into_repr() } }
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> std::str::FromStr for Fp<P, N> {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        if s.is_empty() { return Err(()); }
        let mut r = Self::zero();
        for c in s.chars() { let d = c.to_digit(10).ok_or(())?; r = r * Self::from(10u64) + Self::from(d as u64); }
        Ok(r)
    }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> ToBytes for Fp<P, N> { fn write<W: Write>(&self, w: W) -> IoResult<()> { self.into_repr().write(w) } }
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> FromBytes for Fp<P, N> {
    fn read<R: Read>(r: R) -> IoResult<Self> {
        let b = BigInt::<N>::read(r)?;
        Self::from_repr(b).ok_or_else(|| std::io::Error::new(std::io::ErrorKind::Other, "FromBytes::read failed"))
    }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> CanonicalSerializeWithFlags for Fp<P, N> {
    fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, flags: F) -> Result<(), SerializationError> {
        if F::BIT_SIZE > 8 { return Err(SerializationError::NotEnoughSpace); }
        let n = buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE);
        let mut b = vec![0u8; 8 * N + 1];
        self.write(&mut b[..8 * N])?;
        b[n - 1] |= flags.u8_bitmask();
        w.write_all(&b[..n])?;
        Ok(())
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize { buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE) }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> CanonicalSerialize for Fp<P, N> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.serialize_with_flags(w, EmptyFlags) }
    fn serialized_size(&self) -> usize { self.serialized_size_with_flags::<EmptyFlags>() }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> CanonicalDeserializeWithFlags for Fp<P, N> {
    fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> {
        if F::BIT_SIZE > 8 { return Err(SerializationError::NotEnoughSpace); }
        let n = buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE);
        let mut b = vec![0u8; 8 * N + 1];
        r.read_exact(&mut b[..n])?;
        let flags = F::from_u8_remove_flags(&mut b[n - 1]).ok_or(SerializationError::UnexpectedFlags)?;
        let v = BigInt::<N>::read(&b[..8 * N])?;
        Ok((Self::from_repr(v).ok_or(SerializationError::InvalidData)?, flags))
    }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> CanonicalDeserialize for Fp<P, N> {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(Self::deserialize_with_flags::<R, EmptyFlags>(r)?.0) }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> Field for Fp<P, N> {
    type BasePrimeField = Self;
    fn characteristic<'a>() -> &'a [u64] { &<P as FpParamsRef<N>>::M.0 }
    fn extension_degree() -> u64 { 1 }
    fn inverse(&self) -> Option<Self> {
        // binary extended Euclid on Montgomery representation (Guajardo et al., Alg. 16)
        if self.is_zero() { return None; }
        let one = { let mut o = [0u64; N]; o[0] = 1; o };
        let m = &P::MODULUS.0;
        let (mut u, mut v) = (self.0 .0, *m);
        let (mut b, mut c) = (P::R2.0, [0u64; N]);
        let half = |x: &mut [u64; N], carry: u64| {
            for i in 0..N { let hi = if i + 1 < N { x[i + 1] } else { carry }; x[i] = (x[i] >> 1) | (hi << 63); }
        };
        while u != one && v != one {
            while u[0] & 1 == 0 {
                half(&mut u, 0);
                if b[0] & 1 == 0 { half(&mut b, 0) } else { let cy = add_in(&mut b, m); half(&mut b, cy) }
            }
            while v[0] & 1 == 0 {
                half(&mut v, 0);
                if c[0] & 1 == 0 { half(&mut c, 0) } else { let cy = add_in(&mut c, m); half(&mut c, cy) }
            }
            if geq(&u, &v) {
                sub_in(&mut u, &v);
                if sub_in(&mut b, &c) { add_in(&mut b, m); }
            } else {
                sub_in(&mut v, &u);
                if sub_in(&mut c, &b) { add_in(&mut c, m); }
            }
        }
        Some(Self::raw(if u == one { b } else { c }))
    }
    fn frobenius_map(&mut self, _: usize) {}
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        if F::BIT_SIZE > 8 { return None; }
        let mut rb = vec![0u8; 8 * N + 1];
        rb.iter_mut().zip(bytes).for_each(|(r, i)| *r = *i);
        let mut mask = [0u8; 9];
        mask[..8].copy_from_slice(&(u64::MAX >> P::REPR_SHAVE_BITS).to_le_bytes());
        let n = buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE);
        let loc = n - 1 - 8 * (N - 1);
        let fmask = 255u8.checked_shl(8 - F::BIT_SIZE as u32).unwrap_or(0);
        let mut flags = 0u8;
        for (i, (b, m)) in rb[8 * (N - 1)..].iter_mut().zip(&mask).enumerate() {
            if i == loc { flags = *b & fmask; }
            *b &= m;
        }
        Self::deserialize(&rb[..8 * N]).ok().and_then(|f| F::from_u8(flags).map(|fl| (f, fl)))
    }
}
/// `&'static` access to the modulus
pub trait FpParamsRef<const N: usize> { const M: &'static BigInt<N>; }
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> FpParamsRef<N> for P { const M: &'static BigInt<N> = &P::MODULUS; }

impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> SquareRootField for Fp<P, N> {
    fn legendre(&self) -> LegendreSymbol {
        let s = self.pow(P::MODULUS_MINUS_ONE_DIV_TWO);
        if s.is_zero() { LegendreSymbol::Zero } else if s.is_one() { LegendreSymbol::QuadraticResidue } else { LegendreSymbol::QuadraticNonResidue }
    }
    fn sqrt(&self) -> Option<Self> {
        if self.is_zero() { return Some(*self); }
        // Tonelli-Shanks
        let mut z = Self::from(P::QNR).pow(P::T);
        let mut w = self.pow(P::T_MINUS_ONE_DIV_TWO);
        let mut x = w * self;
        let mut b = x * w;
        let mut v = P::TWO_ADICITY as usize;
        while !b.is_one() {
            let mut k = 0;
            let mut b2k = b;
            while !b2k.is_one() { b2k = b2k.square(); k += 1; if k > v { return None; } }
            if k >= v { return None; }
            let j = v - k;
            w = z;
            for _ in 1..j { w = w.square(); }
            z = w.square(); b *= z; x *= w; v = k;
        }
        if x.square() == *self { Some(x) } else { None }
    }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> PrimeField for Fp<P, N> {
    type Params = P;
    type BigInt = BigInt<N>;
    fn from_repr(r: BigInt<N>) -> Option<Self> { if r < P::MODULUS { Some(Self::raw(Self::mont_mul(&r.0, &P::R2.0))) } else { None } }
    fn into_repr(&self) -> BigInt<N> { let mut one = [0u64; N]; one[0] = 1; BigInt(Self::mont_mul(&self.0 .0, &one)) }
}
impl<P: FpParameters<BigInt = BigInt<N>>, const N: usize> FftField for Fp<P, N> {}
impl<P, const N: usize> AsRef<[u64]> for Fp<P, N> { fn as_ref(&self) -> &[u64] { &self.0 .0 } }

// ---------------------------------------------------------------- quadratic extension
pub trait Fp2Parameters: 'static + Send + Sync { type Fp: PrimeField + SquareRootField; const NONRESIDUE_NEG: u64; }
/// `Fp[u]/(u^2 + NONRESIDUE_NEG)`
pub struct Fp2<P: Fp2Parameters> { pub c0: P::Fp, pub c1: P::Fp }
pub type QuadExtField<P> = Fp2<P>;
impl<P: Fp2Parameters> Fp2<P> {
    pub fn new(c0: P::Fp, c1: P::Fp) -> Self { Fp2 { c0, c1 } }
    fn nr() -> P::Fp { -P::Fp::from(P::NONRESIDUE_NEG) }
    pub fn norm(&self) -> P::Fp { self.c0.square() - self.c1.square() * Self::nr() }
    pub fn mul_by_basefield(&self, f: &P::Fp) -> Self { Fp2::new(self.c0 * f, self.c1 * f) }
    pub fn conjugate(&mut self) { self.c1 = -self.c1; }
    pub fn mul_assign_by_basefield(&mut self, f: &P::Fp) { *self = self.mul_by_basefield(f); }
    pub fn mul_assign_by_fp(&mut self, f: &P::Fp) { self.mul_assign_by_basefield(f) }
}
impl<P: Fp2Parameters> Clone for Fp2<P> { fn clone(&self) -> Self { *self } }
impl<P: Fp2Parameters> Copy for Fp2<P> {}
impl<P: Fp2Parameters> PartialEq for Fp2<P> { fn eq(&self, o: &Self) -> bool { self.c0 == o.c0 && self.c1 == o.c1 } }
impl<P: Fp2Parameters> Eq for Fp2<P> {}
impl<P: Fp2Parameters> Hash for Fp2<P> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.c0.hash(h); self.c1.hash(h) } }
impl<P: Fp2Parameters> Default for Fp2<P> { fn default() -> Self { Self::zero() } }
impl<P: Fp2Parameters> Debug for Fp2<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Display::fmt(self, f) } }
impl<P: Fp2Parameters> Display for Fp2<P> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Fp2({} + {} * u)", self.c0, self.c1) } }
impl<P: Fp2Parameters> Ord for Fp2<P> { fn cmp(&self, o: &Self) -> Ordering { match self.c1.cmp(&o.c1) { Ordering::Equal => self.c0.cmp(&o.c0), x => x } } }
impl<P: Fp2Parameters> PartialOrd for Fp2<P> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl<P: Fp2Parameters> Neg for Fp2<P> { type Output = Self; fn neg(self) -> Self { Fp2::new(-self.c0, -self.c1) } }
impl<P: Fp2Parameters> AddAssign<&Fp2<P>> for Fp2<P> { fn add_assign(&mut self, o: &Self) { self.c0 += o.c0; self.c1 += o.c1; } }
impl<P: Fp2Parameters> SubAssign<&Fp2<P>> for Fp2<P> { fn sub_assign(&mut self, o: &Self) { self.c0 -= o.c0; self.c1 -= o.c1; } }
impl<P: Fp2Parameters> MulAssign<&Fp2<P>> for Fp2<P> {
    fn mul_assign(&mut self, o: &Self) {
        let a = self.c0 * o.c0; let b = self.c1 * o.c1;
        let c = (self.c0 + self.c1) * (o.c0 + o.c1) - a - b;
        // b * NONRESIDUE_NEG by additions (NONRESIDUE_NEG is small)
        let b2 = b.double(); let nb = match P::NONRESIDUE_NEG { 5 => b2.double() + b, 1 => b, k => b * P::Fp::from(k) };
        self.c0 = a - nb; self.c1 = c;
    }
}
impl<P: Fp2Parameters> DivAssign<&Fp2<P>> for Fp2<P> { fn div_assign(&mut self, o: &Self) { *self *= &o.inverse().unwrap(); } }
field_ops!([P: Fp2Parameters] Fp2<P>);
impl<P: Fp2Parameters> Zero for Fp2<P> { fn zero() -> Self { Fp2::new(P::Fp::zero(), P::Fp::zero()) } fn is_zero(&self) -> bool { self.c0.is_zero() && self.c1.is_zero() } }
impl<P: Fp2Parameters> One for Fp2<P> { fn one() -> Self { Fp2::new(P::Fp::one(), P::Fp::zero()) } fn is_one(&self) -> bool { self.c0.is_one() && self.c1.is_zero() } }
impl<P: Fp2Parameters> Distribution<Fp2<P>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Fp2<P> { let a = UniformRand::rand(rng); let b = UniformRand::rand(rng); Fp2::new(a, b) }
}
macro_rules! from_ints2 { ($($t:ty),*) => {$( impl<P: Fp2Parameters> From<$t> for Fp2<P> { fn from(v: $t) -> Self { Fp2::new(P::Fp::from(v), P::Fp::zero()) } } )*}}
from_ints2!(u128, u64, u32, u16, u8, bool);
impl<P: Fp2Parameters> ToBytes for Fp2<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.c0.write(&mut w)?; self.c1.write(w) } }
impl<P: Fp2Parameters> FromBytes for Fp2<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { let a = P::Fp::read(&mut r)?; let b = P::Fp::read(r)?; Ok(Fp2::new(a, b)) } }
impl<P: Fp2Parameters> CanonicalSerializeWithFlags for Fp2<P> {
    fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, flags: F) -> Result<(), SerializationError> {
        self.c0.serialize(&mut w)?; self.c1.serialize_with_flags(w, flags)
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize { self.c0.serialized_size() + self.c1.serialized_size_with_flags::<F>() }
}
impl<P: Fp2Parameters> CanonicalSerialize for Fp2<P> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.serialize_with_flags(w, EmptyFlags) }
    fn serialized_size(&self) -> usize { self.serialized_size_with_flags::<EmptyFlags>() }
}
impl<P: Fp2Parameters> CanonicalDeserializeWithFlags for Fp2<P> {
    fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> {
        let c0 = P::Fp::deserialize(&mut r)?; let (c1, f) = P::Fp::deserialize_with_flags(r)?; Ok((Fp2::new(c0, c1), f))
    }
}
impl<P: Fp2Parameters> CanonicalDeserialize for Fp2<P> {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(Self::deserialize_with_flags::<R, EmptyFlags>(r)?.0) }
}
impl<P: Fp2Parameters> Field for Fp2<P> {
    type BasePrimeField = P::Fp;
    fn extension_degree() -> u64 { 2 }
    fn square(&self) -> Self { *self * *self }
    fn inverse(&self) -> Option<Self> { self.norm().inverse().map(|i| Fp2::new(self.c0 * i, -(self.c1 * i))) }
    fn frobenius_map(&mut self, power: usize) { if power % 2 == 1 { self.c1 = -self.c1; } }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        let split = bytes.len() / 2;
        let c0 = P::Fp::from_random_bytes(&bytes[..split])?;
        let (c1, f) = P::Fp::from_random_bytes_with_flags(&bytes[split..])?;
        Some((Fp2::new(c0, c1), f))
    }
}
impl<P: Fp2Parameters> SquareRootField for Fp2<P> {
    fn legendre(&self) -> LegendreSymbol { self.norm().legendre() }
    fn sqrt(&self) -> Option<Self> {
        if self.c1.is_zero() {
            return if let Some(s) = self.c0.sqrt() { Some(Fp2::new(s, P::Fp::zero())) }
            else { (self.c0 / Self::nr()).sqrt().map(|s| Fp2::new(P::Fp::zero(), s)) };
        }
        let alpha = self.norm().sqrt()?;
        let two_inv = P::Fp::from(2u64).inverse()?;
        let mut delta = (alpha + self.c0) * two_inv;
        if delta.legendre().is_qnr() { delta -= alpha; }
        let c0 = delta.sqrt()?;
        let c0_inv = c0.inverse()?;
        let cand = Fp2::new(c0, self.c1 * two_inv * c0_inv);
        if cand.square() == *self { Some(cand) } else { None }
    }
}
impl<P: Fp2Parameters> ToConstraintField<P::Fp> for Fp2<P> { fn to_field_elements(&self) -> Option<Vec<P::Fp>> { Some(vec![self.c0, self.c1]) } }

/// re-exported under the paths the repository uses
pub mod fields { pub use super::*; }
pub mod biginteger { pub use crate::bigint::*; }
pub mod bytes { pub use super::{FromBytes, ToBytes}; }


/// Replaces every non-zero element by its inverse.
pub fn batch_inversion<F: Field>(v: &mut [F]) { for x in v.iter_mut() { if let Some(i) = x.inverse() { *x = i; } } }
