//! ark-r1cs-std: the gadget library, as constraints over `crate::r1cs`.
//! Field, bit and group arithmetic is real R1CS; bit decomposition, range checks against (p-1)/2 and
//! pairings are custom constraints stating their specification.
use crate::ec::{bls12::Bls12Parameters, short_weierstrass_jacobian as swj, *};
use crate::ff::*;
use crate::r1cs::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::ops::*;
use std::rc::Rc;

type Lc<F> = LinearCombination<F>;
type Cs<F> = ConstraintSystemRef<F>;
type Res<T> = Result<T>;

// ------------------------------------------------------------------------------------ traits
#[derive(Eq, PartialEq, Copy, Clone, Debug)]
pub enum AllocationMode { Constant = 0, Input = 1, Witness = 2 }
impl AllocationMode {
    pub fn max(&self, o: Self) -> Self { if *self as usize > o as usize { *self } else { o } }
}
pub trait R1CSVar<F: Field> {
    type Value: Debug + Eq + Clone;
    fn cs(&self) -> Cs<F>;
    fn is_constant(&self) -> bool { self.cs().is_none() }
    fn value(&self) -> Res<Self::Value>;
}
impl<F: Field, T: R1CSVar<F>> R1CSVar<F> for [T] {
    type Value = Vec<T::Value>;
    fn cs(&self) -> Cs<F> { self.iter().fold(Cs::None, |c, v| c.or(v.cs())) }
    fn value(&self) -> Res<Vec<T::Value>> { self.iter().map(|v| v.value()).collect() }
}
impl<'a, F: Field, T: 'a + R1CSVar<F>> R1CSVar<F> for &'a T {
    type Value = T::Value;
    fn cs(&self) -> Cs<F> { (*self).cs() }
    fn value(&self) -> Res<T::Value> { (*self).value() }
}
pub trait Assignment<T> { fn get(self) -> Res<T>; }
impl<T> Assignment<T> for Option<T> { fn get(self) -> Res<T> { self.ok_or(SynthesisError::AssignmentMissing) } }

pub trait AllocVar<V: ?Sized, F: Field>: Sized + 'static {
    fn new_variable<T: Borrow<V>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Res<T>, mode: AllocationMode) -> Res<Self>;
    fn new_constant(cs: impl Into<Namespace<F>>, t: impl Borrow<V>) -> Res<Self> { Self::new_variable(cs, || Ok(t), AllocationMode::Constant) }
    fn new_input<T: Borrow<V>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Res<T>) -> Res<Self> { Self::new_variable(cs, f, AllocationMode::Input) }
    fn new_witness<T: Borrow<V>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Res<T>) -> Res<Self> { Self::new_variable(cs, f, AllocationMode::Witness) }
}
impl<I, F: Field, A: AllocVar<I, F>> AllocVar<[I], F> for Vec<A> {
    fn new_variable<T: Borrow<[I]>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Res<T>, mode: AllocationMode) -> Res<Self> {
        let cs = cs.into().cs();
        f()?.borrow().iter().map(|e| A::new_variable(cs.clone(), || Ok(e), mode)).collect()
    }
}
pub trait EqGadget<F: Field> {
    fn is_eq(&self, other: &Self) -> Res<Boolean<F>>;
    fn is_neq(&self, other: &Self) -> Res<Boolean<F>> { Ok(self.is_eq(other)?.not()) }
    fn conditional_enforce_equal(&self, other: &Self, cond: &Boolean<F>) -> Res<()> {
        self.is_eq(other)?.conditional_enforce_equal(&Boolean::TRUE, cond)
    }
    fn enforce_equal(&self, other: &Self) -> Res<()> { self.conditional_enforce_equal(other, &Boolean::Constant(true)) }
    fn conditional_enforce_not_equal(&self, other: &Self, cond: &Boolean<F>) -> Res<()> {
        self.is_neq(other)?.conditional_enforce_equal(&Boolean::TRUE, cond)
    }
    fn enforce_not_equal(&self, other: &Self) -> Res<()> { self.conditional_enforce_not_equal(other, &Boolean::Constant(true)) }
}
impl<F: Field, T: EqGadget<F>> EqGadget<F> for [T] {
    fn is_eq(&self, o: &Self) -> Res<Boolean<F>> {
        assert_eq!(self.len(), o.len());
        let v = self.iter().zip(o).map(|(a, b)| a.is_eq(b)).collect::<Res<Vec<_>>>()?;
        if v.is_empty() { Ok(Boolean::TRUE) } else { Boolean::kary_and(&v) }
    }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Res<()> {
        assert_eq!(self.len(), o.len());
        for (a, b) in self.iter().zip(o) { a.conditional_enforce_equal(b, c)?; }
        Ok(())
    }
}
pub trait CondSelectGadget<F: Field>: Sized + Clone {
    fn conditionally_select(cond: &Boolean<F>, t: &Self, f: &Self) -> Res<Self>;
}
pub trait ToBitsGadget<F: Field> {
    fn to_bits_le(&self) -> Res<Vec<Boolean<F>>>;
    fn to_non_unique_bits_le(&self) -> Res<Vec<Boolean<F>>> { self.to_bits_le() }
    fn to_bits_be(&self) -> Res<Vec<Boolean<F>>> { let mut b = self.to_bits_le()?; b.reverse(); Ok(b) }
    fn to_non_unique_bits_be(&self) -> Res<Vec<Boolean<F>>> { let mut b = self.to_non_unique_bits_le()?; b.reverse(); Ok(b) }
}
pub trait ToBytesGadget<F: Field> {
    fn to_bytes(&self) -> Res<Vec<UInt8<F>>>;
    fn to_non_unique_bytes(&self) -> Res<Vec<UInt8<F>>> { self.to_bytes() }
}
impl<F: Field> ToBytesGadget<F> for Vec<UInt8<F>> { fn to_bytes(&self) -> Res<Vec<UInt8<F>>> { Ok(self.clone()) } }
impl<F: Field> ToBytesGadget<F> for Boolean<F> {
    fn to_bytes(&self) -> Res<Vec<UInt8<F>>> { let mut b = vec![self.clone()]; b.resize(8, Boolean::FALSE); Ok(vec![UInt8::from_bits_le(&b)]) }
}
fn bits_to_bytes<F: Field>(mut b: Vec<Boolean<F>>) -> Vec<UInt8<F>> {
    while b.len() % 8 != 0 { b.push(Boolean::Constant(false)); }
    b.chunks(8).map(UInt8::from_bits_le).collect()
}
impl<F: Field> ToBytesGadget<F> for [UInt8<F>] { fn to_bytes(&self) -> Res<Vec<UInt8<F>>> { Ok(self.to_vec()) } }

// ------------------------------------------------------------------------------------ booleans
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AllocatedBit<F: Field> { variable: Variable, cs: Cs<F> }
impl<F: Field> AllocatedBit<F> {
    pub fn variable(&self) -> Variable { self.variable }
    pub fn value(&self) -> Res<bool> { self.cs.assigned_value(self.variable).get().map(|v| !v.is_zero()) }
}
fn alloc<F: Field>(cs: &Cs<F>, f: impl FnOnce() -> Res<F>, mode: AllocationMode) -> Res<Variable> {
    if mode == AllocationMode::Input { cs.new_input_variable(f) } else { cs.new_witness_variable(f) }
}
fn one<F: Field>() -> Lc<F> { Lc::from(Variable::One) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Boolean<F: Field> { Is(AllocatedBit<F>), Not(AllocatedBit<F>), Constant(bool) }
impl<F: Field> R1CSVar<F> for Boolean<F> {
    type Value = bool;
    fn cs(&self) -> Cs<F> { match self { Self::Is(a) | Self::Not(a) => a.cs.clone(), _ => Cs::None } }
    fn value(&self) -> Res<bool> { match self { Self::Constant(c) => Ok(*c), Self::Is(v) => v.value(), Self::Not(v) => v.value().map(|b| !b) } }
}
impl<F: Field> Boolean<F> {
    pub const TRUE: Self = Boolean::Constant(true);
    pub const FALSE: Self = Boolean::Constant(false);
    pub fn constant(b: bool) -> Self { Boolean::Constant(b) }
    pub fn constant_vec_from_bytes(v: &[u8]) -> Vec<Self> { v.iter().flat_map(|b| (0..8).map(move |i| Self::constant((b >> i) & 1 == 1))).collect() }
    pub fn lc(&self) -> Lc<F> {
        match self {
            Boolean::Constant(false) => Lc::zero(),
            Boolean::Constant(true) => one(),
            Boolean::Is(v) => v.variable.into(),
            Boolean::Not(v) => one() - v.variable,
        }
    }
    pub fn not(&self) -> Self { match self { Boolean::Constant(c) => Boolean::Constant(!c), Boolean::Is(v) => Boolean::Not(v.clone()), Boolean::Not(v) => Boolean::Is(v.clone()) } }
    /// a fresh bit r with `a * b = c`, linear in r
    fn derived(cs: Cs<F>, v: Res<bool>, k: impl FnOnce(Lc<F>) -> (Lc<F>, Lc<F>, Lc<F>)) -> Res<Self> {
        let variable = cs.new_witness_variable(|| v.map(F::from))?;
        let (a, b, c) = k(variable.into());
        cs.enforce_constraint(a, b, c)?;
        Ok(Boolean::Is(AllocatedBit { variable, cs }))
    }
    pub fn and(&self, o: &Self) -> Res<Self> {
        match (self, o) {
            (Boolean::Constant(false), _) | (_, Boolean::Constant(false)) => Ok(Self::FALSE),
            (Boolean::Constant(true), x) | (x, Boolean::Constant(true)) => Ok(x.clone()),
            _ => { let v = (|| Ok(self.value()? && o.value()?))(); Self::derived(self.cs().or(o.cs()), v, |r| (self.lc(), o.lc(), r)) }
        }
    }
    pub fn or(&self, o: &Self) -> Res<Self> { Ok(self.not().and(&o.not())?.not()) }
    pub fn xor(&self, o: &Self) -> Res<Self> {
        match (self, o) {
            (Boolean::Constant(false), x) | (x, Boolean::Constant(false)) => Ok(x.clone()),
            (Boolean::Constant(true), x) | (x, Boolean::Constant(true)) => Ok(x.not()),
            _ => { let v = (|| Ok(self.value()? ^ o.value()?))();
                Self::derived(self.cs().or(o.cs()), v, |r| (self.lc() + self.lc(), o.lc(), self.lc() + o.lc() - r)) }
        }
    }
    pub fn kary_and(bits: &[Self]) -> Res<Self> { assert!(!bits.is_empty()); let mut a = bits[0].clone(); for b in &bits[1..] { a = a.and(b)?; } Ok(a) }
    pub fn kary_or(bits: &[Self]) -> Res<Self> { assert!(!bits.is_empty()); let mut a = bits[0].clone(); for b in &bits[1..] { a = a.or(b)?; } Ok(a) }
    pub fn kary_nand(bits: &[Self]) -> Res<Self> { Ok(Self::kary_and(bits)?.not()) }
    pub fn enforce_kary_nand(bits: &[Self]) -> Res<()> { Self::kary_nand(bits)?.enforce_equal(&Self::TRUE) }
    pub fn enforce_kary_or(bits: &[Self]) -> Res<()> { Self::kary_or(bits)?.enforce_equal(&Self::TRUE) }
    pub fn select<T: CondSelectGadget<F>>(&self, t: &T, f: &T) -> Res<T> { T::conditionally_select(self, t, f) }
    pub fn le_bits_to_fp_var(bits: &[Self]) -> Res<FpVar<F>> where F: PrimeField {
        let cs = bits.cs();
        let mut lc = Lc::zero();
        let mut c = F::one();
        for b in bits { lc += b.lc() * c; c = c.double(); }
        if cs.is_none() { return Ok(FpVar::Constant(bits.iter().rev().fold(F::zero(), |a, b| a.double() + F::from(b.value().unwrap())))); }
        let variable = cs.new_lc(lc)?;
        Ok(FpVar::Var(AllocatedFp { variable, cs }))
    }
    /// the integer with little-endian bits `bits` is at most `e`
    pub fn enforce_smaller_or_equal_than_le(bits: &[Self], e: impl AsRef<[u64]>) -> Res<Vec<Self>> {
        let e: Vec<bool> = BitIteratorLE::new(e.as_ref()).collect();
        let cs = bits.cs();
        let le = move |b: &[bool]| { let n = b.len().max(e.len()); for i in (0..n).rev() { let (x, y) = (*b.get(i).unwrap_or(&false), *e.get(i).unwrap_or(&false)); if x != y { return y; } } true };
        if cs.is_none() { return if le(&bits.value()?) { Ok(vec![]) } else { Err(SynthesisError::Unsatisfiable) }; }
        cs.enforce_custom("bits_le", 0, bits.iter().map(|b| b.lc()).collect(), Rc::new(move |v: &[F]| v.iter().all(|x| x.is_zero() || x.is_one()) && le(&v.iter().map(|x| x.is_one()).collect::<Vec<_>>())))?;
        Ok(vec![])
    }
    pub fn enforce_in_field_le(bits: &[Self]) -> Res<()> where F: PrimeField { canonical(&bits.cs(), None, bits) }
}
/// `bits` are the little-endian bits of an integer below the modulus (and of the value of `of`)
fn canonical<F: PrimeField>(cs: &Cs<F>, of: Option<Lc<F>>, bits: &[Boolean<F>]) -> Res<()> {
    if cs.is_none() { return Ok(()); }
    let has = of.is_some();
    let mut args: Vec<Lc<F>> = of.into_iter().collect();
    args.extend(bits.iter().map(|b| b.lc()));
    cs.enforce_custom("canonical_bits", has as u64, args, Rc::new(move |v: &[F]| {
        let b = &v[has as usize..];
        if b.iter().any(|x| !x.is_zero() && !x.is_one()) { return false; }
        let n = F::size_in_bits();
        let bb: Vec<bool> = b.iter().map(|x| x.is_one()).collect();
        if bb.len() > n && bb[n..].iter().any(|x| *x) { return false; }
        match F::from_repr(F::BigInt::from_bits_le(&bb[..bb.len().min(n)])) { None => false, Some(x) => !has || x == v[0] }
    }))
}
impl<F: Field> AllocVar<bool, F> for Boolean<F> {
    fn new_variable<T: Borrow<bool>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Res<T>, mode: AllocationMode) -> Res<Self> {
        if mode == AllocationMode::Constant { return Ok(Boolean::Constant(*f()?.borrow())); }
        let cs = cs.into().cs();
        let variable = alloc(&cs, || f().map(|b| F::from(*b.borrow())), mode)?;
        cs.enforce_constraint(one() - variable, variable.into(), Lc::zero())?;
        Ok(Boolean::Is(AllocatedBit { variable, cs }))
    }
}
impl<F: Field> From<AllocatedBit<F>> for Boolean<F> { fn from(b: AllocatedBit<F>) -> Self { Boolean::Is(b) } }
impl<F: Field> EqGadget<F> for Boolean<F> {
    fn is_eq(&self, o: &Self) -> Res<Self> { Ok(self.xor(o)?.not()) }
    fn conditional_enforce_equal(&self, o: &Self, c: &Self) -> Res<()> {
        let cs = self.cs().or(o.cs()).or(c.cs());
        if cs.is_none() { return if c.value()? && self.value()? != o.value()? { Err(SynthesisError::Unsatisfiable) } else { Ok(()) }; }
        cs.enforce_constraint(self.lc() - o.lc(), c.lc(), Lc::zero())
    }
    fn conditional_enforce_not_equal(&self, o: &Self, c: &Self) -> Res<()> { self.not().conditional_enforce_equal(o, c) }
}
impl<F: Field> CondSelectGadget<F> for Boolean<F> {
    fn conditionally_select(c: &Self, t: &Self, f: &Self) -> Res<Self> {
        match c {
            Boolean::Constant(true) => Ok(t.clone()),
            Boolean::Constant(false) => Ok(f.clone()),
            _ => match (t, f) {
                (x, Boolean::Constant(false)) => c.and(x),
                (Boolean::Constant(false), x) => c.not().and(x),
                (Boolean::Constant(true), x) => c.or(x),
                (x, Boolean::Constant(true)) => c.not().or(x),
                _ => { let v = (|| if c.value()? { t.value() } else { f.value() })();
                    Self::derived(c.cs(), v, |r| (c.lc(), t.lc() - f.lc(), r - f.lc())) }
            },
        }
    }
}
impl<F: Field> ToBitsGadget<F> for Boolean<F> { fn to_bits_le(&self) -> Res<Vec<Self>> { Ok(vec![self.clone()]) } }
impl<F: Field> ToBitsGadget<F> for [Boolean<F>] { fn to_bits_le(&self) -> Res<Vec<Boolean<F>>> { Ok(self.to_vec()) } }
impl<F: Field> ToBitsGadget<F> for Vec<Boolean<F>> { fn to_bits_le(&self) -> Res<Vec<Boolean<F>>> { Ok(self.clone()) } }

// ------------------------------------------------------------------------------------ small integers
macro_rules! uint { ($n:ident, $t:ty, $b:expr) => {
    #[derive(Clone, Debug)]
    pub struct $n<F: Field> { pub bits: Vec<Boolean<F>> }
    impl<F: Field> $n<F> {
        pub fn constant(v: $t) -> Self { Self { bits: (0..$b).map(|i| Boolean::constant((v >> i) & 1 == 1)).collect() } }
        pub fn constant_vec(v: &[$t]) -> Vec<Self> { v.iter().map(|x| Self::constant(*x)).collect() }
        pub fn from_bits_le(bits: &[Boolean<F>]) -> Self { assert_eq!(bits.len(), $b); Self { bits: bits.to_vec() } }
        pub fn xor(&self, o: &Self) -> Res<Self> { Ok(Self { bits: self.bits.iter().zip(&o.bits).map(|(a, b)| a.xor(b)).collect::<Res<_>>()? }) }
    }
    impl<F: Field> R1CSVar<F> for $n<F> {
        type Value = $t;
        fn cs(&self) -> Cs<F> { self.bits.as_slice().cs() }
        fn value(&self) -> Res<$t> { let mut v = 0; for (i, b) in self.bits.iter().enumerate() { v |= (b.value()? as $t) << i; } Ok(v) }
    }
    impl<F: Field> AllocVar<$t, F> for $n<F> {
        fn new_variable<T: Borrow<$t>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Res<T>, mode: AllocationMode) -> Res<Self> {
            let cs = cs.into().cs();
            let v = f().map(|b| *b.borrow());
            Ok(Self { bits: (0..$b).map(|i| Boolean::new_variable(cs.clone(), || v.map(|v| (v >> i) & 1 == 1), mode)).collect::<Res<_>>()? })
        }
    }
    impl<F: Field> EqGadget<F> for $n<F> {
        fn is_eq(&self, o: &Self) -> Res<Boolean<F>> { self.bits.as_slice().is_eq(&o.bits) }
        fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Res<()> { self.bits.as_slice().conditional_enforce_equal(&o.bits, c) }
    }
    impl<F: Field> CondSelectGadget<F> for $n<F> {
        fn conditionally_select(c: &Boolean<F>, t: &Self, f: &Self) -> Res<Self> { Ok(Self { bits: t.bits.iter().zip(&f.bits).map(|(a, b)| c.select(a, b)).collect::<Res<_>>()? }) }
    }
}}
uint!(UInt8, u8, 8);
uint!(UInt16, u16, 16);
uint!(UInt32, u32, 32);
uint!(UInt64, u64, 64);
impl<F: Field> UInt32<F> { pub fn to_bits_le(&self) -> Vec<Boolean<F>> { self.bits.clone() } }
impl<F: Field> UInt16<F> { pub fn to_bits_le(&self) -> Vec<Boolean<F>> { self.bits.clone() } }
impl<F: Field> UInt64<F> { pub fn to_bits_le(&self) -> Vec<Boolean<F>> { self.bits.clone() } }
impl<F: Field> UInt8<F> {
    pub fn new_witness_vec(cs: impl Into<Namespace<F>>, v: &[impl Into<Option<u8>> + Copy]) -> Res<Vec<Self>> {
        let cs = cs.into().cs();
        v.iter().map(|x| { let x: Option<u8> = (*x).into(); <Self as AllocVar<u8, F>>::new_witness(cs.clone(), || x.get()) }).collect()
    }
    /// packed: the bytes are the bits of as many field elements as they need
    pub fn new_input_vec(cs: impl Into<Namespace<F>>, v: &[u8]) -> Res<Vec<Self>> where F: PrimeField {
        let cs = cs.into().cs();
        let max = (<F as PrimeField>::Params::CAPACITY / 8) as usize;
        let mut bits = vec![];
        for c in v.chunks(max) {
            let e: F = F::from_le_bytes_mod_order(c);
            let mut b = FpVar::new_input(cs.clone(), || Ok(e))?.to_bits_le()?;
            b.truncate(8 * c.len());
            bits.extend(b);
        }
        Ok(bits.chunks(8).map(Self::from_bits_le).collect())
    }
}
impl<F: Field> ToBitsGadget<F> for UInt8<F> { fn to_bits_le(&self) -> Res<Vec<Boolean<F>>> { Ok(self.bits.clone()) } }
impl<F: Field> ToBitsGadget<F> for [UInt8<F>] { fn to_bits_le(&self) -> Res<Vec<Boolean<F>>> { Ok(self.iter().flat_map(|b| b.bits.clone()).collect()) } }
impl<F: Field> ToBitsGadget<F> for Vec<UInt8<F>> { fn to_bits_le(&self) -> Res<Vec<Boolean<F>>> { self.as_slice().to_bits_le() } }
impl<F: Field> ToBytesGadget<F> for UInt8<F> { fn to_bytes(&self) -> Res<Vec<UInt8<F>>> { Ok(vec![self.clone()]) } }

// ------------------------------------------------------------------------------------ fields
/// The operations arkworks asks of `&Var` in generic bounds.
pub trait FieldOpsBounds<'a, F, T: 'a>: Sized + Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T> + Add<F, Output = T> + Sub<F, Output = T> + Mul<F, Output = T> {}
impl<'a, F, T: 'a, S: Sized + Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T> + Add<F, Output = T> + Sub<F, Output = T> + Mul<F, Output = T>> FieldOpsBounds<'a, F, T> for S {}
pub trait GroupOpsBounds<'a, G, T: 'a>: Sized + Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Add<T, Output = T> + Sub<T, Output = T> {}
impl<'a, G, T: 'a, S: Sized + Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Add<T, Output = T> + Sub<T, Output = T>> GroupOpsBounds<'a, G, T> for S {}
pub trait FieldVar<V, F: Field>: 'static + Clone + EqGadget<F> + R1CSVar<F, Value = V> + Sized + From<Boolean<F>> + ToBitsGadget<F> + ToBytesGadget<F>
    + CondSelectGadget<F> + AllocVar<V, F> + for<'a> FieldOpsBounds<'a, V, Self> + AddAssign<Self> + SubAssign<Self> + MulAssign<Self>
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self> + AddAssign<V> + SubAssign<V> + MulAssign<V>
{
    fn zero() -> Self;
    fn one() -> Self;
    fn constant(v: V) -> Self;
    fn mul_var(&self, o: &Self) -> Res<Self>;
    fn double(&self) -> Res<Self>;
    fn negate(&self) -> Res<Self>;
    fn inverse(&self) -> Res<Self>;
    fn is_zero(&self) -> Res<Boolean<F>> { self.is_eq(&Self::zero()) }
    fn is_one(&self) -> Res<Boolean<F>> { self.is_eq(&Self::one()) }
    fn square(&self) -> Res<Self> { self.mul_var(self) }
    fn double_in_place(&mut self) -> Res<&mut Self> { *self = self.double()?; Ok(self) }
    fn square_in_place(&mut self) -> Res<&mut Self> { *self = self.square()?; Ok(self) }
    fn negate_in_place(&mut self) -> Res<&mut Self> { *self = self.negate()?; Ok(self) }
    fn mul_equals(&self, o: &Self, r: &Self) -> Res<()> { self.mul_var(o)?.enforce_equal(r) }
    fn square_equals(&self, r: &Self) -> Res<()> { self.mul_equals(self, r) }
    /// self / d; unsatisfiable if d = 0
    fn mul_by_inverse(&self, d: &Self) -> Res<Self> { let i = d.inverse()?; self.mul_var(&i) }
    fn pow_le(&self, exp: &[Boolean<F>]) -> Res<Self> {
        let mut r = Self::one();
        let mut p = self.clone();
        for b in exp { let t = r.mul_var(&p)?; r = b.select(&t, &r)?; p = p.square()?; }
        Ok(r)
    }
    fn pow_by_constant<S: AsRef<[u64]>>(&self, e: S) -> Res<Self> {
        let mut r = Self::one();
        for b in BitIteratorBE::without_leading_zeros(e) { r = r.square()?; if b { r = r.mul_var(self)?; } }
        Ok(r)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AllocatedFp<F: PrimeField> { pub variable: Variable, pub cs: Cs<F> }
impl<F: PrimeField> AllocatedFp<F> {
    pub fn value(&self) -> Res<F> { self.cs.assigned_value(self.variable).get() }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum FpVar<F: PrimeField> { Constant(F), Var(AllocatedFp<F>) }
impl<F: PrimeField> FpVar<F> {
    pub fn lc_(&self) -> Lc<F> { match self { FpVar::Constant(c) => Lc::from((*c, Variable::One)), FpVar::Var(v) => v.variable.into() } }
    fn linear(&self, o: &Self, k: F) -> Self {
        match (self, o) {
            (FpVar::Constant(a), FpVar::Constant(b)) => FpVar::Constant(*a + k * b),
            _ => { let cs = self.cs().or(o.cs()); let variable = cs.new_lc(self.lc_() + o.lc_() * k).unwrap(); FpVar::Var(AllocatedFp { variable, cs }) }
        }
    }
    fn scale(&self, k: F) -> Self {
        match self { FpVar::Constant(a) => FpVar::Constant(*a * k), FpVar::Var(v) => FpVar::Var(AllocatedFp { variable: v.cs.new_lc(self.lc_() * k).unwrap(), cs: v.cs.clone() }) }
    }
    fn product(&self, o: &Self) -> Self {
        match (self, o) {
            (FpVar::Constant(a), x) | (x, FpVar::Constant(a)) => x.scale(*a),
            _ => {
                let cs = self.cs().or(o.cs());
                let variable = cs.new_witness_variable(|| Ok(self.value()? * o.value()?)).unwrap();
                cs.enforce_constraint(self.lc_(), o.lc_(), variable.into()).unwrap();
                FpVar::Var(AllocatedFp { variable, cs })
            }
        }
    }
    /// self <= (p-1)/2
    pub fn enforce_smaller_or_equal_than_mod_minus_one_div_two(&self) -> Res<()> {
        let cs = self.cs();
        let chk = |v: &[F]| v[0].into_repr() <= F::modulus_minus_one_div_two();
        if cs.is_none() { return if chk(&[self.value()?]) { Ok(()) } else { Err(SynthesisError::Unsatisfiable) }; }
        cs.enforce_custom("le_half", 0, vec![self.lc_()], Rc::new(chk))
    }
    fn cmp_inputs(&self, o: &Self, ord: Ordering, eq: bool) -> Res<(Self, Self)> {
        let (l, r) = match ord { Ordering::Less => (self, o), Ordering::Greater => (o, self), Ordering::Equal => return Err(SynthesisError::Unsatisfiable) };
        Ok((l.clone(), if eq { r + F::one() } else { r.clone() }))
    }
    /// the low bit of 2(l - r): set iff l < r, when both are at most (p-1)/2
    fn smaller_unchecked(&self, r: &Self) -> Res<Boolean<F>> { Ok((self - r).double()?.to_bits_le()?[0].clone()) }
    pub fn enforce_cmp(&self, o: &Self, ord: Ordering, eq: bool) -> Res<()> { self.is_cmp(o, ord, eq)?.enforce_equal(&Boolean::TRUE) }
    pub fn enforce_cmp_unchecked(&self, o: &Self, ord: Ordering, eq: bool) -> Res<()> { self.is_cmp_unchecked(o, ord, eq)?.enforce_equal(&Boolean::TRUE) }
    pub fn is_cmp(&self, o: &Self, ord: Ordering, eq: bool) -> Res<Boolean<F>> {
        let (l, r) = self.cmp_inputs(o, ord, eq)?;
        l.enforce_smaller_or_equal_than_mod_minus_one_div_two()?;
        r.enforce_smaller_or_equal_than_mod_minus_one_div_two()?;
        l.smaller_unchecked(&r)
    }
    pub fn is_cmp_unchecked(&self, o: &Self, ord: Ordering, eq: bool) -> Res<Boolean<F>> { let (l, r) = self.cmp_inputs(o, ord, eq)?; l.smaller_unchecked(&r) }
}
impl<F: PrimeField> From<AllocatedFp<F>> for FpVar<F> { fn from(a: AllocatedFp<F>) -> Self { FpVar::Var(a) } }
impl<F: PrimeField> From<Boolean<F>> for FpVar<F> {
    fn from(b: Boolean<F>) -> Self { match b { Boolean::Constant(c) => FpVar::Constant(F::from(c)), _ => { let cs = b.cs(); FpVar::Var(AllocatedFp { variable: cs.new_lc(b.lc()).unwrap(), cs }) } } }
}
impl<F: PrimeField> R1CSVar<F> for FpVar<F> {
    type Value = F;
    fn cs(&self) -> Cs<F> { match self { FpVar::Constant(_) => Cs::None, FpVar::Var(v) => v.cs.clone() } }
    fn value(&self) -> Res<F> { match self { FpVar::Constant(c) => Ok(*c), FpVar::Var(v) => v.value() } }
}
impl<F: PrimeField> AllocVar<F, F> for FpVar<F> {
    fn new_variable<T: Borrow<F>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Res<T>, mode: AllocationMode) -> Res<Self> {
        if mode == AllocationMode::Constant { return Ok(FpVar::Constant(*f()?.borrow())); }
        let cs = cs.into().cs();
        let variable = alloc(&cs, || f().map(|v| *v.borrow()), mode)?;
        Ok(FpVar::Var(AllocatedFp { variable, cs }))
    }
}
impl<F: PrimeField> EqGadget<F> for FpVar<F> {
    fn is_eq(&self, o: &Self) -> Res<Boolean<F>> {
        if let (FpVar::Constant(a), FpVar::Constant(b)) = (self, o) { return Ok(Boolean::Constant(a == b)); }
        let cs = self.cs().or(o.cs());
        let d = self.lc_() - o.lc_();
        // is_not_equal = d * m;  (1 - is_not_equal) * d = 0
        let dv = || Ok(self.value()? - o.value()?);
        let ne = Boolean::new_witness(cs.clone(), || Ok(!dv()?.is_zero()))?;
        let m = cs.new_witness_variable(|| Ok(dv()?.inverse().unwrap_or_else(F::one)))?;
        cs.enforce_constraint(d.clone(), m.into(), ne.lc())?;
        cs.enforce_constraint(d, ne.not().lc(), Lc::zero())?;
        Ok(ne.not())
    }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Res<()> {
        let cs = self.cs().or(o.cs()).or(c.cs());
        if cs.is_none() { return if c.value()? && self.value()? != o.value()? { Err(SynthesisError::Unsatisfiable) } else { Ok(()) }; }
        cs.enforce_constraint(self.lc_() - o.lc_(), c.lc(), Lc::zero())
    }
    fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<F>) -> Res<()> {
        let cs = self.cs().or(o.cs()).or(c.cs());
        if cs.is_none() { return if c.value()? && self.value()? == o.value()? { Err(SynthesisError::Unsatisfiable) } else { Ok(()) }; }
        let m = cs.new_witness_variable(|| Ok(if c.value()? { (self.value()? - o.value()?).inverse().unwrap_or_else(F::zero) } else { F::zero() }))?;
        cs.enforce_constraint(self.lc_() - o.lc_(), m.into(), c.lc())
    }
}
impl<F: PrimeField> CondSelectGadget<F> for FpVar<F> {
    fn conditionally_select(c: &Boolean<F>, t: &Self, f: &Self) -> Res<Self> {
        if let Boolean::Constant(b) = c { return Ok(if *b { t.clone() } else { f.clone() }); }
        let cs = c.cs();
        if let (FpVar::Constant(_), FpVar::Constant(_)) = (t, f) {
            let variable = cs.new_lc(c.lc() * t.value()? + c.not().lc() * f.value()?)?;
            return Ok(FpVar::Var(AllocatedFp { variable, cs }));
        }
        let variable = cs.new_witness_variable(|| if c.value()? { t.value() } else { f.value() })?;
        cs.enforce_constraint(c.lc(), t.lc_() - f.lc_(), Lc::from(variable) - f.lc_())?;
        Ok(FpVar::Var(AllocatedFp { variable, cs }))
    }
}
impl<F: PrimeField> ToBitsGadget<F> for FpVar<F> {
    fn to_bits_le(&self) -> Res<Vec<Boolean<F>>> {
        let n = F::size_in_bits();
        match self {
            FpVar::Constant(c) => Ok(c.into_repr().to_bits_le().into_iter().take(n).map(Boolean::constant).collect()),
            FpVar::Var(v) => {
                let val = v.value().map(|x| x.into_repr().to_bits_le());
                let bits = (0..n).map(|i| Boolean::new_witness(v.cs.clone(), || val.clone().map(|b| b[i]))).collect::<Res<Vec<_>>>()?;
                canonical(&v.cs, Some(self.lc_()), &bits)?;
                Ok(bits)
            }
        }
    }
}
impl<F: PrimeField> FieldVar<F, F> for FpVar<F> {
    fn zero() -> Self { FpVar::Constant(F::zero()) }
    fn one() -> Self { FpVar::Constant(F::one()) }
    fn constant(v: F) -> Self { FpVar::Constant(v) }
    fn mul_var(&self, o: &Self) -> Res<Self> { Ok(self.product(o)) }
    fn double(&self) -> Res<Self> { Ok(self.scale(F::from(2u64))) }
    fn negate(&self) -> Res<Self> { Ok(self.scale(-F::one())) }
    fn inverse(&self) -> Res<Self> {
        match self {
            FpVar::Constant(c) => c.inverse().map(FpVar::Constant).ok_or(SynthesisError::DivisionByZero),
            FpVar::Var(v) => {
                let i = v.cs.new_witness_variable(|| Ok(v.value()?.inverse().unwrap_or_else(F::zero)))?;
                v.cs.enforce_constraint(v.variable.into(), i.into(), one())?;
                Ok(FpVar::Var(AllocatedFp { variable: i, cs: v.cs.clone() }))
            }
        }
    }
    fn mul_equals(&self, o: &Self, r: &Self) -> Res<()> {
        let cs = self.cs().or(o.cs()).or(r.cs());
        if cs.is_none() { return if self.value()? * o.value()? == r.value()? { Ok(()) } else { Err(SynthesisError::Unsatisfiable) }; }
        cs.enforce_constraint(self.lc_(), o.lc_(), r.lc_())
    }
}
/// owned and borrowed operators from `&a op &b`, and with native constants
macro_rules! var_ops { ([$($g:tt)*] $t:ty, $val:ty, $c:expr) => {
    var_ops!(@o [$($g)*] $t, $val, $c, Add, add, AddAssign, add_assign);
    var_ops!(@o [$($g)*] $t, $val, $c, Sub, sub, SubAssign, sub_assign);
    var_ops!(@o [$($g)*] $t, $val, $c, Mul, mul, MulAssign, mul_assign);
    };
    (@o [$($g:tt)*] $t:ty, $val:ty, $c:expr, $tr:ident, $f:ident, $tra:ident, $fa:ident) => {
    impl<$($g)*> $tr<$t> for $t { type Output = $t; fn $f(self, o: $t) -> $t { $tr::$f(&self, &o) } }
    impl<'b, $($g)*> $tr<&'b $t> for $t { type Output = $t; fn $f(self, o: &'b $t) -> $t { $tr::$f(&self, o) } }
    impl<'a, $($g)*> $tr<$t> for &'a $t { type Output = $t; fn $f(self, o: $t) -> $t { $tr::$f(self, &o) } }
    impl<$($g)*> $tr<$val> for $t { type Output = $t; fn $f(self, o: $val) -> $t { $tr::$f(&self, &$c(o)) } }
    impl<'a, $($g)*> $tr<$val> for &'a $t { type Output = $t; fn $f(self, o: $val) -> $t { $tr::$f(self, &$c(o)) } }
    impl<$($g)*> $tra<$t> for $t { fn $fa(&mut self, o: $t) { *self = $tr::$f(&*self, &o) } }
    impl<'b, $($g)*> $tra<&'b $t> for $t { fn $fa(&mut self, o: &'b $t) { *self = $tr::$f(&*self, o) } }
    impl<$($g)*> $tra<$val> for $t { fn $fa(&mut self, o: $val) { *self = $tr::$f(&*self, &$c(o)) } }
    };
}
impl<'a, 'b, F: PrimeField> Add<&'b FpVar<F>> for &'a FpVar<F> { type Output = FpVar<F>; fn add(self, o: &'b FpVar<F>) -> FpVar<F> { self.linear(o, F::one()) } }
impl<'a, 'b, F: PrimeField> Sub<&'b FpVar<F>> for &'a FpVar<F> { type Output = FpVar<F>; fn sub(self, o: &'b FpVar<F>) -> FpVar<F> { self.linear(o, -F::one()) } }
impl<'a, 'b, F: PrimeField> Mul<&'b FpVar<F>> for &'a FpVar<F> { type Output = FpVar<F>; fn mul(self, o: &'b FpVar<F>) -> FpVar<F> { self.product(o) } }
var_ops!([F: PrimeField] FpVar<F>, F, FpVar::Constant);
impl<F: PrimeField> std::iter::Sum<FpVar<F>> for FpVar<F> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(FpVar::Constant(F::zero()), |a, b| a + b) } }
impl<'a, F: PrimeField> std::iter::Sum<&'a FpVar<F>> for FpVar<F> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(FpVar::Constant(F::zero()), |a, b| a + b) } }
impl<F: PrimeField> ToBytesGadget<F> for FpVar<F> {
    fn to_bytes(&self) -> Res<Vec<UInt8<F>>> { Ok(bits_to_bytes(self.to_bits_le()?)) }
}

pub struct Fp2Var<P: Fp2Parameters> where P::Fp: PrimeField { pub c0: FpVar<P::Fp>, pub c1: FpVar<P::Fp> }
pub type QuadExtVar<P> = Fp2Var<P>;
impl<P: Fp2Parameters> Debug for Fp2Var<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Fp2Var") } }
impl<P: Fp2Parameters> Clone for Fp2Var<P> { fn clone(&self) -> Self { Fp2Var { c0: self.c0.clone(), c1: self.c1.clone() } } }
impl<P: Fp2Parameters> Fp2Var<P> {
    pub fn new(c0: FpVar<P::Fp>, c1: FpVar<P::Fp>) -> Self { Fp2Var { c0, c1 } }
    fn nr() -> P::Fp { -P::Fp::from(P::NONRESIDUE_NEG) }
}
impl<P: Fp2Parameters> R1CSVar<P::Fp> for Fp2Var<P> {
    type Value = Fp2<P>;
    fn cs(&self) -> Cs<P::Fp> { self.c0.cs().or(self.c1.cs()) }
    fn value(&self) -> Res<Fp2<P>> { Ok(Fp2::new(self.c0.value()?, self.c1.value()?)) }
}
impl<P: Fp2Parameters> AllocVar<Fp2<P>, P::Fp> for Fp2Var<P> {
    fn new_variable<T: Borrow<Fp2<P>>>(cs: impl Into<Namespace<P::Fp>>, f: impl FnOnce() -> Res<T>, mode: AllocationMode) -> Res<Self> {
        let cs = cs.into().cs();
        let v = f().map(|v| *v.borrow());
        Ok(Fp2Var { c0: FpVar::new_variable(cs.clone(), || v.map(|v| v.c0), mode)?, c1: FpVar::new_variable(cs, || v.map(|v| v.c1), mode)? })
    }
}
impl<P: Fp2Parameters> EqGadget<P::Fp> for Fp2Var<P> {
    fn is_eq(&self, o: &Self) -> Res<Boolean<P::Fp>> { self.c0.is_eq(&o.c0)?.and(&self.c1.is_eq(&o.c1)?) }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<P::Fp>) -> Res<()> { self.c0.conditional_enforce_equal(&o.c0, c)?; self.c1.conditional_enforce_equal(&o.c1, c) }
}
impl<P: Fp2Parameters> CondSelectGadget<P::Fp> for Fp2Var<P> {
    fn conditionally_select(c: &Boolean<P::Fp>, t: &Self, f: &Self) -> Res<Self> { Ok(Fp2Var { c0: c.select(&t.c0, &f.c0)?, c1: c.select(&t.c1, &f.c1)? }) }
}
impl<P: Fp2Parameters> ToBitsGadget<P::Fp> for Fp2Var<P> {
    fn to_bits_le(&self) -> Res<Vec<Boolean<P::Fp>>> { let mut a = self.c0.to_bits_le()?; a.extend(self.c1.to_bits_le()?); Ok(a) }
}
impl<P: Fp2Parameters> ToBytesGadget<P::Fp> for Fp2Var<P> {
    fn to_bytes(&self) -> Res<Vec<UInt8<P::Fp>>> { let mut a = self.c0.to_bytes()?; a.extend(self.c1.to_bytes()?); Ok(a) }
}
impl<P: Fp2Parameters> From<Boolean<P::Fp>> for Fp2Var<P> { fn from(b: Boolean<P::Fp>) -> Self { Fp2Var { c0: b.into(), c1: FpVar::zero() } } }
impl<'a, 'b, P: Fp2Parameters> Add<&'b Fp2Var<P>> for &'a Fp2Var<P> { type Output = Fp2Var<P>; fn add(self, o: &'b Fp2Var<P>) -> Fp2Var<P> { Fp2Var::new(&self.c0 + &o.c0, &self.c1 + &o.c1) } }
impl<'a, 'b, P: Fp2Parameters> Sub<&'b Fp2Var<P>> for &'a Fp2Var<P> { type Output = Fp2Var<P>; fn sub(self, o: &'b Fp2Var<P>) -> Fp2Var<P> { Fp2Var::new(&self.c0 - &o.c0, &self.c1 - &o.c1) } }
impl<'a, 'b, P: Fp2Parameters> Mul<&'b Fp2Var<P>> for &'a Fp2Var<P> { type Output = Fp2Var<P>; fn mul(self, o: &'b Fp2Var<P>) -> Fp2Var<P> {
    let a = &self.c0 * &o.c0;
    let b = &self.c1 * &o.c1;
    let c = (&self.c0 + &self.c1) * (&o.c0 + &o.c1) - &a - &b;
    Fp2Var::new(a + b.scale(Fp2Var::<P>::nr()), c)
} }
var_ops!([P: Fp2Parameters] Fp2Var<P>, Fp2<P>, |v: Fp2<P>| Fp2Var::<P>::constant(v));
impl<P: Fp2Parameters> FieldVar<Fp2<P>, P::Fp> for Fp2Var<P> {
    fn zero() -> Self { Self::constant(Fp2::zero()) }
    fn one() -> Self { Self::constant(Fp2::one()) }
    fn constant(v: Fp2<P>) -> Self { Fp2Var { c0: FpVar::Constant(v.c0), c1: FpVar::Constant(v.c1) } }
    fn mul_var(&self, o: &Self) -> Res<Self> { Ok(self * o) }
    fn double(&self) -> Res<Self> { Ok(self + self) }
    fn negate(&self) -> Res<Self> { Ok(Fp2Var { c0: self.c0.negate()?, c1: self.c1.negate()? }) }
    fn inverse(&self) -> Res<Self> {
        let cs = self.cs();
        if cs.is_none() { return self.value()?.inverse().map(Self::constant).ok_or(SynthesisError::DivisionByZero); }
        let i = Self::new_witness(cs, || Ok(self.value()?.inverse().unwrap_or_else(Fp2::zero)))?;
        self.mul_equals(&i, &Self::one())?;
        Ok(i)
    }
}

// ------------------------------------------------------------------------------------ groups
pub trait CurveVar<C: ProjectiveCurve, F: Field>: 'static + Sized + Clone + Debug + R1CSVar<F, Value = C> + EqGadget<F> + CondSelectGadget<F> + AllocVar<C, F>
    + Add<Self, Output = Self> + for<'a> Add<&'a Self, Output = Self> + Sub<Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + AddAssign<Self> + SubAssign<Self>
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + Add<C, Output = Self> + Sub<C, Output = Self> + AddAssign<C> + SubAssign<C> + ToBitsGadget<F> + ToBytesGadget<F>
{
    fn zero() -> Self;
    fn constant(v: C) -> Self;
    fn is_zero(&self) -> Res<Boolean<F>> { self.is_eq(&Self::zero()) }
    fn new_variable_omit_prime_order_check(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Res<C>, mode: AllocationMode) -> Res<Self>;
    fn enforce_prime_order(&self) -> Res<()>;
    fn double_in_place(&mut self) -> Res<()>;
    fn double(&self) -> Res<Self> { let mut r = self.clone(); r.double_in_place()?; Ok(r) }
    fn negate(&self) -> Res<Self>;
    fn scalar_mul_le<'a>(&self, bits: impl Iterator<Item = &'a Boolean<F>>) -> Res<Self> {
        let bits: Vec<Boolean<F>> = bits.cloned().collect();
        let mut r = Self::zero();
        // most significant first, so that leading constant zeros cost nothing
        for b in bits.iter().rev().skip_while(|b| matches!(b, Boolean::Constant(false))) {
            r.double_in_place()?;
            match b {
                Boolean::Constant(true) => r = r + self,
                Boolean::Constant(false) => {}
                _ => { let s = r.clone() + self; r = b.select(&s, &r)?; }
            }
        }
        Ok(r)
    }
}
/// a coordinate field gadget
pub trait Coord<V: Field, F: PrimeField>: FieldVar<V, F> + Debug {
    fn lcs(&self) -> Vec<Lc<F>>;
    fn from_vals(v: &[F]) -> V;
    const N: usize;
}
impl<F: PrimeField> Coord<F, F> for FpVar<F> { fn lcs(&self) -> Vec<Lc<F>> { vec![self.lc_()] } fn from_vals(v: &[F]) -> F { v[0] } const N: usize = 1; }
impl<P: Fp2Parameters> Coord<Fp2<P>, P::Fp> for Fp2Var<P> { fn lcs(&self) -> Vec<Lc<P::Fp>> { vec![self.c0.lc_(), self.c1.lc_()] } fn from_vals(v: &[P::Fp]) -> Fp2<P> { Fp2::new(v[0], v[1]) } const N: usize = 2; }

type BF<P> = <<P as ModelParameters>::BaseField as Field>::BasePrimeField;
pub struct ProjectiveVar<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> { pub x: V, pub y: V, pub z: V, _p: PhantomData<P> }
/// an affine point; `infinity` says whether the coordinates mean anything
pub struct SWAffineVar<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> { pub x: V, pub y: V, pub infinity: Boolean<BF<P>>, _p: PhantomData<P> }
impl<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> ToBitsGadget<BF<P>> for ProjectiveVar<P, V> {
    fn to_bits_le(&self) -> Res<Vec<Boolean<BF<P>>>> {
        let a = self.to_affine()?;
        let mut b = a.x.to_bits_le()?; b.extend(a.y.to_bits_le()?); b.push(a.infinity);
        Ok(b)
    }
}
impl<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> ToBytesGadget<BF<P>> for ProjectiveVar<P, V> {
    fn to_bytes(&self) -> Res<Vec<UInt8<BF<P>>>> {
        let a = self.to_affine()?;
        let mut b = a.x.to_bytes()?; b.extend(a.y.to_bytes()?); b.extend(a.infinity.to_bytes()?);
        Ok(b)
    }
}
impl<'a, P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> Add<swj::GroupProjective<P>> for &'a ProjectiveVar<P, V> { type Output = ProjectiveVar<P, V>; fn add(self, o: swj::GroupProjective<P>) -> ProjectiveVar<P, V> { self + ProjectiveVar::constant(o) } }
impl<'a, P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> Sub<swj::GroupProjective<P>> for &'a ProjectiveVar<P, V> { type Output = ProjectiveVar<P, V>; fn sub(self, o: swj::GroupProjective<P>) -> ProjectiveVar<P, V> { self - ProjectiveVar::constant(o) } }
impl<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> Clone for ProjectiveVar<P, V> { fn clone(&self) -> Self { Self::new(self.x.clone(), self.y.clone(), self.z.clone()) } }
impl<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> Debug for ProjectiveVar<P, V> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "ProjectiveVar") } }
impl<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> ProjectiveVar<P, V> {
    pub fn new(x: V, y: V, z: V) -> Self { ProjectiveVar { x, y, z, _p: PhantomData } }
    fn coords(v: Option<swj::GroupAffine<P>>) -> Option<(P::BaseField, P::BaseField, P::BaseField)> {
        v.map(|a| if a.is_zero() { (P::BaseField::zero(), P::BaseField::one(), P::BaseField::zero()) } else { (a.x, a.y, P::BaseField::one()) })
    }
    pub fn to_affine_value(x: P::BaseField, y: P::BaseField, z: P::BaseField) -> swj::GroupAffine<P> {
        match z.inverse() { None => swj::GroupAffine::zero(), Some(i) => swj::GroupAffine::new(x * i, y * i, false) }
    }
    pub fn to_affine(&self) -> Res<SWAffineVar<P, V>> {
        if self.is_constant() {
            let (x, y, z) = Self::coords(Some(self.value()?.into())).unwrap();
            return Ok(SWAffineVar { x: V::constant(x), y: V::constant(y), infinity: Boolean::Constant(z.is_zero()), _p: PhantomData });
        }
        let cs = self.cs();
        let infinity = <Self as CurveVar<swj::GroupProjective<P>, BF<P>>>::is_zero(self)?;
        let zero_x = V::zero();
        let zero_y = V::one();
        // 1/z, or 1 at infinity
        let zi = V::new_witness(cs, || Ok(self.z.value()?.inverse().unwrap_or_else(P::BaseField::one)))?;
        let zz = self.z.clone() * &zi;
        zz.conditional_enforce_equal(&V::one(), &infinity.not())?;
        let x = infinity.select(&zero_x, &(self.x.clone() * &zi))?;
        let y = infinity.select(&zero_y, &(self.y.clone() * &zi))?;
        Ok(SWAffineVar { x, y, infinity, _p: PhantomData })
    }
    fn lcs(&self) -> Vec<Lc<BF<P>>> { let mut v = self.x.lcs(); v.extend(self.y.lcs()); v.extend(self.z.lcs()); v }
}
impl<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> R1CSVar<BF<P>> for ProjectiveVar<P, V> {
    type Value = swj::GroupProjective<P>;
    fn cs(&self) -> Cs<BF<P>> { self.x.cs().or(self.y.cs()).or(self.z.cs()) }
    fn value(&self) -> Res<Self::Value> { Ok(Self::to_affine_value(self.x.value()?, self.y.value()?, self.z.value()?).into()) }
}
impl<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> AllocVar<swj::GroupProjective<P>, BF<P>> for ProjectiveVar<P, V> {
    fn new_variable<T: Borrow<swj::GroupProjective<P>>>(cs: impl Into<Namespace<BF<P>>>, f: impl FnOnce() -> Res<T>, mode: AllocationMode) -> Res<Self> {
        let r = Self::new_variable_omit_prime_order_check(cs, || f().map(|p| *p.borrow()), mode)?;
        if mode != AllocationMode::Constant { r.enforce_prime_order()?; }
        Ok(r)
    }
}
impl<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> AllocVar<swj::GroupAffine<P>, BF<P>> for ProjectiveVar<P, V> {
    fn new_variable<T: Borrow<swj::GroupAffine<P>>>(cs: impl Into<Namespace<BF<P>>>, f: impl FnOnce() -> Res<T>, mode: AllocationMode) -> Res<Self> {
        <Self as AllocVar<swj::GroupProjective<P>, BF<P>>>::new_variable(cs, || f().map(|p| swj::GroupProjective::from(*p.borrow())), mode)
    }
}
impl<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> EqGadget<BF<P>> for ProjectiveVar<P, V> {
    fn is_eq(&self, o: &Self) -> Res<Boolean<BF<P>>> {
        let xe = (self.x.clone() * &o.z).is_eq(&(o.x.clone() * &self.z))?;
        let ye = (self.y.clone() * &o.z).is_eq(&(o.y.clone() * &self.z))?;
        let z = self.z.is_zero()?.and(&o.z.is_zero()?)?;
        let zd = self.z.is_zero()?.xor(&o.z.is_zero()?)?;
        xe.and(&ye)?.and(&zd.not())?.or(&z)
    }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<BF<P>>) -> Res<()> { self.is_eq(o)?.conditional_enforce_equal(&Boolean::TRUE, c) }
    fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<BF<P>>) -> Res<()> { self.is_eq(o)?.and(c)?.enforce_equal(&Boolean::FALSE) }
}
impl<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> CondSelectGadget<BF<P>> for ProjectiveVar<P, V> {
    fn conditionally_select(c: &Boolean<BF<P>>, t: &Self, f: &Self) -> Res<Self> { Ok(Self::new(c.select(&t.x, &f.x)?, c.select(&t.y, &f.y)?, c.select(&t.z, &f.z)?)) }
}
impl<'a, 'b, P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> Add<&'b ProjectiveVar<P, V>> for &'a ProjectiveVar<P, V> {
    type Output = ProjectiveVar<P, V>;
    /// Renes-Costello-Batina 2016, algorithm 7 (a = 0)
    fn add(self, o: &'b ProjectiveVar<P, V>) -> ProjectiveVar<P, V> {
        assert!(P::coeff_a().is_zero());
        let m = |a: &V, b: &V| a.clone() * b;
        let b3 = V::constant(P::coeff_b().double() + P::coeff_b());
        let three = |a: &V| a.clone() + a + a;
        let xx = m(&self.x, &o.x); let yy = m(&self.y, &o.y); let zz = m(&self.z, &o.z);
        let xy = (self.x.clone() + &self.y) * &(o.x.clone() + &o.y) - &xx - &yy;
        let yz = (self.y.clone() + &self.z) * &(o.y.clone() + &o.z) - &yy - &zz;
        let xz = (self.x.clone() + &self.z) * &(o.x.clone() + &o.z) - &xx - &zz;
        let bzz = m(&zz, &b3);
        let (p, q) = (yy.clone() + &bzz, yy - &bzz);
        let xx3 = three(&xx);
        let bxz = m(&xz, &b3);
        ProjectiveVar::new(m(&xy, &q) - &m(&yz, &bxz), m(&p, &q) + &m(&xx3, &bxz), m(&yz, &p) + &m(&xx3, &xy))
    }
}
macro_rules! gops { ($tr:ident, $f:ident, $tra:ident, $fa:ident) => {
    impl<'b, P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> $tr<&'b ProjectiveVar<P, V>> for ProjectiveVar<P, V> { type Output = Self; fn $f(self, o: &'b Self) -> Self { $tr::$f(&self, o) } }
    impl<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> $tr<ProjectiveVar<P, V>> for ProjectiveVar<P, V> { type Output = Self; fn $f(self, o: Self) -> Self { $tr::$f(&self, &o) } }
    impl<'a, P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> $tr<ProjectiveVar<P, V>> for &'a ProjectiveVar<P, V> { type Output = ProjectiveVar<P, V>; fn $f(self, o: ProjectiveVar<P, V>) -> ProjectiveVar<P, V> { $tr::$f(self, &o) } }
    impl<'b, P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> $tra<&'b ProjectiveVar<P, V>> for ProjectiveVar<P, V> { fn $fa(&mut self, o: &'b Self) { *self = $tr::$f(&*self, o) } }
    impl<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> $tra<ProjectiveVar<P, V>> for ProjectiveVar<P, V> { fn $fa(&mut self, o: Self) { *self = $tr::$f(&*self, &o) } }
}}
impl<'a, 'b, P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> Sub<&'b ProjectiveVar<P, V>> for &'a ProjectiveVar<P, V> { type Output = ProjectiveVar<P, V>; fn sub(self, o: &'b ProjectiveVar<P, V>) -> ProjectiveVar<P, V> { self + &o.negate().unwrap() } }
gops!(Add, add, AddAssign, add_assign);
gops!(Sub, sub, SubAssign, sub_assign);
impl<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> Add<swj::GroupProjective<P>> for ProjectiveVar<P, V> { type Output = Self; fn add(self, o: swj::GroupProjective<P>) -> Self { self + Self::constant(o) } }
impl<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> Sub<swj::GroupProjective<P>> for ProjectiveVar<P, V> { type Output = Self; fn sub(self, o: swj::GroupProjective<P>) -> Self { self - Self::constant(o) } }
impl<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> AddAssign<swj::GroupProjective<P>> for ProjectiveVar<P, V> { fn add_assign(&mut self, o: swj::GroupProjective<P>) { *self += Self::constant(o) } }
impl<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> SubAssign<swj::GroupProjective<P>> for ProjectiveVar<P, V> { fn sub_assign(&mut self, o: swj::GroupProjective<P>) { *self -= Self::constant(o) } }
impl<P: SWModelParameters, V: Coord<P::BaseField, BF<P>>> CurveVar<swj::GroupProjective<P>, BF<P>> for ProjectiveVar<P, V> {
    fn zero() -> Self { Self::new(V::zero(), V::one(), V::zero()) }
    fn constant(v: swj::GroupProjective<P>) -> Self { let (x, y, z) = Self::coords(Some(v.into())).unwrap(); Self::new(V::constant(x), V::constant(y), V::constant(z)) }
    fn is_zero(&self) -> Res<Boolean<BF<P>>> { self.z.is_zero() }
    fn new_variable_omit_prime_order_check(cs: impl Into<Namespace<BF<P>>>, f: impl FnOnce() -> Res<swj::GroupProjective<P>>, mode: AllocationMode) -> Res<Self> {
        let cs = cs.into().cs();
        let v = f();
        if mode == AllocationMode::Constant { return Ok(Self::constant(v?)); }
        // as upstream, an error of f becomes a missing assignment
        let v = Self::coords(v.ok().map(|p| p.into())).ok_or(SynthesisError::AssignmentMissing);
        let x = V::new_variable(cs.clone(), || v.map(|v| v.0), mode)?;
        let y = V::new_variable(cs.clone(), || v.map(|v| v.1), mode)?;
        let z = V::new_variable(cs, || v.map(|v| v.2), mode)?;
        // z (y^2 - b z^2) = x (x^2 + a z^2)
        let (x2, y2, z2) = (x.square()?, y.square()?, z.square()?);
        let l = y2 - &(z2.clone() * &V::constant(P::coeff_b()));
        let r = (x2 + &(z2 * &V::constant(P::coeff_a()))) * &x;
        l.mul_equals(&z, &r)?;
        Ok(Self::new(x, y, z))
    }
    fn enforce_prime_order(&self) -> Res<()> {
        let bits: Vec<Boolean<BF<P>>> = BitIteratorLE::new(<P::ScalarField as PrimeField>::char()).map(Boolean::constant).collect();
        self.scalar_mul_le(bits.iter())?.is_zero()?.enforce_equal(&Boolean::TRUE)
    }
    fn double_in_place(&mut self) -> Res<()> { *self = &*self + &*self; Ok(()) }
    fn negate(&self) -> Res<Self> { Ok(Self::new(self.x.clone(), self.y.negate()?, self.z.clone())) }
}
pub type G1Var<P> = ProjectiveVar<<P as Bls12Parameters>::G1Parameters, FpVar<<P as Bls12Parameters>::Fp>>;
pub type G2Var<P> = ProjectiveVar<<P as Bls12Parameters>::G2Parameters, Fp2Var<<P as Bls12Parameters>::Fp2Params>>;

pub struct TEAffineVar<P: TEModelParameters, V> { pub x: V, pub y: V, pub _p: PhantomData<P> }
impl<P: TEModelParameters, V: Clone> Clone for TEAffineVar<P, V> { fn clone(&self) -> Self { TEAffineVar { x: self.x.clone(), y: self.y.clone(), _p: PhantomData } } }
impl<P: TEModelParameters, V> Debug for TEAffineVar<P, V> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "TEAffineVar") } }

// ------------------------------------------------------------------------------------ pairings
pub trait PairingVar<E: PairingEngine, F: Field = <E as PairingEngine>::Fq> {
    type G1Var: CurveVar<E::G1Projective, F> + AllocVar<E::G1Affine, F>;
    type G2Var: CurveVar<E::G2Projective, F> + AllocVar<E::G2Affine, F>;
    type GTVar: FieldVar<E::Fqk, F>;
    type G1PreparedVar: Clone + Debug;
    type G2PreparedVar: Clone + Debug;
    fn miller_loop(p: &[Self::G1PreparedVar], q: &[Self::G2PreparedVar]) -> Res<Self::GTVar>;
    fn final_exponentiation(p: &Self::GTVar) -> Res<Self::GTVar>;
    fn pairing(p: Self::G1PreparedVar, q: Self::G2PreparedVar) -> Res<Self::GTVar> { Self::product_of_pairings(&[p], &[q]) }
    fn product_of_pairings(p: &[Self::G1PreparedVar], q: &[Self::G2PreparedVar]) -> Res<Self::GTVar> { Self::final_exponentiation(&Self::miller_loop(p, q)?) }
    fn prepare_g1(q: &Self::G1Var) -> Res<Self::G1PreparedVar>;
    fn prepare_g2(q: &Self::G2Var) -> Res<Self::G2PreparedVar>;
}
pub mod bls12_377 {
    use super::*;
    use crate::curves::bls12_377::*;
    pub type FqVar = FpVar<Fq>;
    pub type Fq2Var = Fp2Var<Fq2Parameters>;
    pub type G1Var = super::G1Var<Parameters>;
    pub type G2Var = super::G2Var<Parameters>;
    #[derive(Clone, Debug)]
    pub struct G1PreparedVar(pub G1Var);
    #[derive(Clone, Debug)]
    pub struct G2PreparedVar(pub G2Var);
    /// a formal product of pairings
    #[derive(Clone, Debug)]
    pub struct GTVar { pub pairs: Vec<(G1Var, G2Var)>, pub inv: Vec<(G1Var, G2Var)> }
    pub type Fq12Var = GTVar;
    fn eval(pairs: &[(G1Affine, G2Affine)]) -> Fq12 {
        let v: Vec<(G1Prepared, G2Prepared)> = pairs.iter().map(|(p, q)| ((*p).into(), (*q).into())).collect();
        Bls12_377::product_of_pairings(v.iter())
    }
    fn pts(v: &[Fq]) -> Vec<(G1Affine, G2Affine)> {
        v.chunks(9).map(|c| (G1Var::to_affine_value(c[0], c[1], c[2]), G2Var::to_affine_value(Fq2::new(c[3], c[4]), Fq2::new(c[5], c[6]), Fq2::new(c[7], c[8])))).collect()
    }
    fn one_(v: &[Fq]) -> bool {
        std::panic::catch_unwind(|| {
            let p = pts(v);
            // off-curve coordinates have no pairing
            p.iter().all(|(a, b)| a.is_on_curve() && b.is_on_curve()) && eval(&p).is_one()
        }).unwrap_or(false)
    }
    impl R1CSVar<Fq> for GTVar {
        type Value = Fq12;
        fn cs(&self) -> Cs<Fq> { self.pairs.iter().chain(&self.inv).fold(Cs::None, |c, (p, q)| c.or(p.cs()).or(q.cs())) }
        fn value(&self) -> Res<Fq12> {
            let f = |v: &[(G1Var, G2Var)]| -> Res<Fq12> { let p = v.iter().map(|(p, q)| Ok((p.value()?.into(), q.value()?.into()))).collect::<Res<Vec<_>>>()?; Ok(eval(&p)) };
            Ok(f(&self.pairs)? * f(&self.inv)?.inverse().unwrap())
        }
    }
    impl GTVar {
        fn quotient(&self, o: &Self) -> Res<(Cs<Fq>, Vec<Lc<Fq>>)> {
            let mut args = vec![];
            for (p, q) in self.pairs.iter().chain(&o.inv) { args.extend(p.lcs()); args.extend(q.lcs()); }
            for (p, q) in self.inv.iter().chain(&o.pairs) { args.extend(p.negate()?.lcs()); args.extend(q.lcs()); }
            Ok((self.cs().or(o.cs()), args))
        }
    }
    impl EqGadget<Fq> for GTVar {
        fn is_eq(&self, o: &Self) -> Res<Boolean<Fq>> {
            let (cs, mut args) = self.quotient(o)?;
            if cs.is_none() { return Ok(Boolean::Constant(self.value()? == o.value()?)); }
            let b = Boolean::new_witness(cs.clone(), || Ok(self.value()? == o.value()?))?;
            args.push(b.lc());
            cs.enforce_custom("pairing_is_one", 1, args, Rc::new(|v: &[Fq]| one_(&v[..v.len() - 1]) == v[v.len() - 1].is_one()))?;
            Ok(b)
        }
        fn enforce_equal(&self, o: &Self) -> Res<()> {
            let (cs, args) = self.quotient(o)?;
            if cs.is_none() { return if self.value()? == o.value()? { Ok(()) } else { Err(SynthesisError::Unsatisfiable) }; }
            cs.enforce_custom("pairing_is_one", 0, args, Rc::new(one_))
        }
    }
    const NO: &str = "not an operation on products of pairings";
    impl From<Boolean<Fq>> for GTVar { fn from(_: Boolean<Fq>) -> Self { panic!("{}", NO) } }
    impl ToBitsGadget<Fq> for GTVar { fn to_bits_le(&self) -> Res<Vec<Boolean<Fq>>> { panic!("{}", NO) } }
    impl ToBytesGadget<Fq> for GTVar { fn to_bytes(&self) -> Res<Vec<UInt8<Fq>>> { panic!("{}", NO) } }
    impl CondSelectGadget<Fq> for GTVar { fn conditionally_select(c: &Boolean<Fq>, t: &Self, f: &Self) -> Res<Self> { match c { Boolean::Constant(b) => Ok(if *b { t.clone() } else { f.clone() }), _ => panic!("{}", NO) } } }
    impl AllocVar<Fq12, Fq> for GTVar {
        fn new_variable<T: Borrow<Fq12>>(_: impl Into<Namespace<Fq>>, f: impl FnOnce() -> Res<T>, _: AllocationMode) -> Res<Self> { Ok(Self::constant(*f()?.borrow())) }
    }
    macro_rules! no { ($($tr:ident $f:ident $tra:ident $fa:ident),*) => {$(
        impl $tr for GTVar { type Output = GTVar; fn $f(self, _: GTVar) -> GTVar { panic!("{}", NO) } }
        impl<'a> $tr<&'a GTVar> for GTVar { type Output = GTVar; fn $f(self, _: &'a GTVar) -> GTVar { panic!("{}", NO) } }
        impl $tr<Fq12> for GTVar { type Output = GTVar; fn $f(self, _: Fq12) -> GTVar { panic!("{}", NO) } }
        impl $tra for GTVar { fn $fa(&mut self, _: GTVar) { panic!("{}", NO) } }
        impl<'a> $tra<&'a GTVar> for GTVar { fn $fa(&mut self, _: &'a GTVar) { panic!("{}", NO) } }
        impl $tra<Fq12> for GTVar { fn $fa(&mut self, _: Fq12) { panic!("{}", NO) } }
    )*}}
    no!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign);
    impl Mul<Fq12> for GTVar { type Output = GTVar; fn mul(self, o: Fq12) -> GTVar { self * GTVar::constant(o) } }
    impl MulAssign<Fq12> for GTVar { fn mul_assign(&mut self, o: Fq12) { *self *= GTVar::constant(o) } }
    impl FieldVar<Fq12, Fq> for GTVar {
        fn zero() -> Self { panic!("no zero in the target group") }
        fn one() -> Self { GTVar { pairs: vec![], inv: vec![] } }
        fn constant(v: Fq12) -> Self { assert!(v.is_one()); Self::one() }
        fn mul_var(&self, o: &Self) -> Res<Self> { Ok(self * o) }
        fn double(&self) -> Res<Self> { panic!("GT is multiplicative") }
        fn negate(&self) -> Res<Self> { panic!("GT is multiplicative") }
        fn inverse(&self) -> Res<Self> { Ok(GTVar { pairs: self.inv.clone(), inv: self.pairs.clone() }) }
    }
    impl<'a, 'b> Mul<&'b GTVar> for &'a GTVar { type Output = GTVar; fn mul(self, o: &'b GTVar) -> GTVar {
        GTVar { pairs: [&self.pairs[..], &o.pairs[..]].concat(), inv: [&self.inv[..], &o.inv[..]].concat() } } }
    impl<'b> Mul<&'b GTVar> for GTVar { type Output = GTVar; fn mul(self, o: &'b GTVar) -> GTVar { &self * o } }
    impl Mul for GTVar { type Output = GTVar; fn mul(self, o: GTVar) -> GTVar { &self * &o } }
    impl MulAssign for GTVar { fn mul_assign(&mut self, o: GTVar) { *self = &*self * &o } }
    impl<'b> MulAssign<&'b GTVar> for GTVar { fn mul_assign(&mut self, o: &'b GTVar) { *self = &*self * o } }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct PairingVar;
    impl super::PairingVar<Bls12_377, Fq> for PairingVar {
        type G1Var = G1Var; type G2Var = G2Var; type GTVar = GTVar; type G1PreparedVar = G1PreparedVar; type G2PreparedVar = G2PreparedVar;
        fn miller_loop(p: &[G1PreparedVar], q: &[G2PreparedVar]) -> Res<GTVar> {
            Ok(GTVar { pairs: p.iter().zip(q).map(|(p, q)| (p.0.clone(), q.0.clone())).collect(), inv: vec![] })
        }
        fn final_exponentiation(p: &GTVar) -> Res<GTVar> { Ok(p.clone()) }
        fn prepare_g1(q: &G1Var) -> Res<G1PreparedVar> { Ok(G1PreparedVar(q.clone())) }
        fn prepare_g2(q: &G2Var) -> Res<G2PreparedVar> {
            q.is_zero()?.enforce_equal(&Boolean::FALSE)?;
            Ok(G2PreparedVar(q.clone()))
        }
    }
}

// ------------------------------------------------------------------------------------ paths
pub mod paths {
    pub mod alloc { pub use super::super::{AllocVar, AllocationMode}; }
    pub mod bits {
        pub use super::super::{ToBitsGadget, ToBytesGadget};
        pub mod boolean { pub use super::super::super::{AllocatedBit, Boolean}; }
        pub mod uint8 { pub use super::super::super::UInt8; }
        pub mod uint16 { pub use super::super::super::UInt16; }
        pub mod uint32 { pub use super::super::super::UInt32; }
        pub mod uint64 { pub use super::super::super::UInt64; }
    }
    pub use bits::{boolean, uint16, uint32, uint64, uint8};
    pub mod eq { pub use super::super::EqGadget; }
    pub mod select { pub use super::super::CondSelectGadget; }
    pub mod fields {
        pub use super::super::{FieldOpsBounds, FieldVar};
        pub mod fp { pub use super::super::super::{AllocatedFp, FpVar}; }
        pub mod fp2 { pub use super::super::super::Fp2Var; }
        pub mod quadratic_extension { pub use super::super::super::QuadExtVar; }
    }
    pub mod groups {
        pub use super::super::{CurveVar, GroupOpsBounds};
        pub mod curves {
            pub mod short_weierstrass {
                pub use super::super::super::super::ProjectiveVar;
                pub mod bls12 { pub use super::super::super::super::super::{G1Var, G2Var}; pub use super::super::super::super::super::bls12_377::{G1PreparedVar, G2PreparedVar}; }
            }
            pub mod twisted_edwards { pub use super::super::super::super::TEAffineVar as AffineVar; }
        }
        pub use curves::short_weierstrass::bls12;
    }
    pub mod pairing { pub use super::super::PairingVar; }
    pub use super::{Assignment, R1CSVar, ToBitsGadget, ToBytesGadget};
    pub mod prelude {
        pub use super::super::{AllocVar, AllocationMode, Boolean, CondSelectGadget, CurveVar, EqGadget, FieldOpsBounds, FieldVar, GroupOpsBounds, PairingVar, R1CSVar, ToBitsGadget, ToBytesGadget, UInt16, UInt32, UInt64, UInt8};
    }
}
