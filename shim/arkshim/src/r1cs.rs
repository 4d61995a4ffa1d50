//! ark-relations (r1cs): a constraint system that keeps its constraints, so that an assignment can be
//! judged, altered and exported.  Library gadgets that are trusted (curve pairings, Blake2s, the CRH)
//! are single *custom* constraints: a predicate over linear combinations, re-evaluated like any other.
//! `overrides` replaces the honest value of a witness at allocation, so that everything allocated
//! later derives from the dishonest one (what a malicious prover does).
use crate::ff::Field;
use std::cell::{Ref, RefCell, RefMut};
use std::collections::BTreeMap;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};
use std::ops::*;
use std::rc::Rc;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SynthesisError {
    MissingCS, AssignmentMissing, DivisionByZero, Unsatisfiable, PolynomialDegreeTooLarge, UnexpectedIdentity,
    MalformedVerifyingKey, UnconstrainedVariable,
}
impl Display for SynthesisError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for SynthesisError {}
pub type Result<T> = std::result::Result<T, SynthesisError>;

#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Variable { Zero, One, Instance(usize), Witness(usize), SymbolicLc(usize) }
impl Variable {
    pub fn is_zero(&self) -> bool { matches!(self, Variable::Zero) }
    pub fn is_one(&self) -> bool { matches!(self, Variable::One) }
    pub fn is_witness(&self) -> bool { matches!(self, Variable::Witness(_)) }
    pub fn is_instance(&self) -> bool { matches!(self, Variable::Instance(_)) }
    pub fn is_lc(&self) -> bool { matches!(self, Variable::SymbolicLc(_)) }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LinearCombination<F: Field>(pub Vec<(F, Variable)>);
impl<F: Field> Default for LinearCombination<F> { fn default() -> Self { Self(vec![]) } }
impl<F: Field> LinearCombination<F> {
    pub fn zero() -> Self { Self(vec![]) }
    pub fn new() -> Self { Self(vec![]) }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn iter(&self) -> std::slice::Iter<'_, (F, Variable)> { self.0.iter() }
}
type Lc<F> = LinearCombination<F>;
impl<F: Field> From<Variable> for Lc<F> { fn from(v: Variable) -> Self { if v.is_zero() { Self::zero() } else { Self(vec![(F::one(), v)]) } } }
impl<F: Field> From<(F, Variable)> for Lc<F> { fn from(t: (F, Variable)) -> Self { Self(vec![t]) } }
impl<F: Field> Add<(F, Variable)> for Lc<F> { type Output = Self; fn add(mut self, t: (F, Variable)) -> Self { self.0.push(t); self } }
impl<F: Field> AddAssign<(F, Variable)> for Lc<F> { fn add_assign(&mut self, t: (F, Variable)) { self.0.push(t) } }
impl<F: Field> Sub<(F, Variable)> for Lc<F> { type Output = Self; fn sub(self, (c, v): (F, Variable)) -> Self { self + (-c, v) } }
impl<F: Field> SubAssign<(F, Variable)> for Lc<F> { fn sub_assign(&mut self, (c, v): (F, Variable)) { self.0.push((-c, v)) } }
impl<F: Field> Add<Variable> for Lc<F> { type Output = Self; fn add(self, v: Variable) -> Self { self + (F::one(), v) } }
impl<F: Field> Sub<Variable> for Lc<F> { type Output = Self; fn sub(self, v: Variable) -> Self { self + (-F::one(), v) } }
impl<F: Field> Neg for Lc<F> { type Output = Self; fn neg(mut self) -> Self { self.0.iter_mut().for_each(|t| t.0 = -t.0); self } }
impl<F: Field> Mul<F> for Lc<F> { type Output = Self; fn mul(mut self, c: F) -> Self { self.0.iter_mut().for_each(|t| t.0 *= c); self } }
impl<'a, F: Field> Mul<F> for &'a Lc<F> { type Output = Lc<F>; fn mul(self, c: F) -> Lc<F> { self.clone() * c } }
impl<F: Field> MulAssign<F> for Lc<F> { fn mul_assign(&mut self, c: F) { self.0.iter_mut().for_each(|t| t.0 *= c) } }
impl<F: Field> Add<Lc<F>> for Lc<F> { type Output = Self; fn add(mut self, o: Self) -> Self { self.0.extend(o.0); self } }
impl<'a, F: Field> Add<&'a Lc<F>> for Lc<F> { type Output = Self; fn add(mut self, o: &'a Self) -> Self { self.0.extend_from_slice(&o.0); self } }
impl<F: Field> AddAssign<Lc<F>> for Lc<F> { fn add_assign(&mut self, o: Self) { self.0.extend(o.0) } }
impl<'a, F: Field> AddAssign<&'a Lc<F>> for Lc<F> { fn add_assign(&mut self, o: &'a Self) { self.0.extend_from_slice(&o.0) } }
impl<F: Field> Sub<Lc<F>> for Lc<F> { type Output = Self; fn sub(self, o: Self) -> Self { self + (-o) } }
impl<'a, F: Field> Sub<&'a Lc<F>> for Lc<F> { type Output = Self; fn sub(self, o: &'a Self) -> Self { self + (-o.clone()) } }
impl<F: Field> SubAssign<Lc<F>> for Lc<F> { fn sub_assign(&mut self, o: Self) { self.0.extend((-o).0) } }
impl<F: Field> Add<(F, Lc<F>)> for Lc<F> { type Output = Self; fn add(self, (c, o): (F, Lc<F>)) -> Self { self + o * c } }
impl<'a, F: Field> Add<(F, &'a Lc<F>)> for Lc<F> { type Output = Self; fn add(self, (c, o): (F, &'a Lc<F>)) -> Self { self + o.clone() * c } }
impl<F: Field> Sub<(F, Lc<F>)> for Lc<F> { type Output = Self; fn sub(self, (c, o): (F, Lc<F>)) -> Self { self + o * (-c) } }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum SynthesisMode { Setup, Prove { construct_matrices: bool } }

#[derive(Clone)]
pub enum Constraint<F: Field> {
    R1cs(Lc<F>, Lc<F>, Lc<F>),
    Custom { name: &'static str, salt: u64, args: Vec<Lc<F>>, check: Rc<dyn Fn(&[F]) -> bool> },
}

#[derive(Clone)]
pub struct ConstraintSystem<F: Field> {
    pub mode: SynthesisMode,
    pub num_instance_variables: usize,
    pub num_witness_variables: usize,
    pub num_constraints: usize,
    pub num_linear_combinations: usize,
    pub instance_assignment: Vec<F>,
    pub witness_assignment: Vec<F>,
    pub lcs: Vec<Lc<F>>,
    lc_values: Vec<F>,
    pub constraints: Vec<Constraint<F>>,
    pub overrides: BTreeMap<usize, F>,
    pub used_overrides: usize,
}
impl<F: Field> Default for ConstraintSystem<F> { fn default() -> Self { Self::new() } }
impl<F: Field> ConstraintSystem<F> {
    pub fn new() -> Self {
        ConstraintSystem {
            mode: SynthesisMode::Prove { construct_matrices: true }, num_instance_variables: 1, num_witness_variables: 0,
            num_constraints: 0, num_linear_combinations: 0, instance_assignment: vec![F::one()], witness_assignment: vec![],
            lcs: vec![], lc_values: vec![], constraints: vec![], overrides: BTreeMap::new(), used_overrides: 0,
        }
    }
    pub fn new_ref() -> ConstraintSystemRef<F> { ConstraintSystemRef::new(Self::new()) }
    pub fn set_mode(&mut self, m: SynthesisMode) { self.mode = m }
    pub fn is_in_setup_mode(&self) -> bool { self.mode == SynthesisMode::Setup }
    fn eval_in(&self, lc: &Lc<F>, lcv: &[F]) -> F {
        lc.0.iter().fold(F::zero(), |a, (c, v)| {
            let x = match v {
                Variable::Zero => return a,
                Variable::One => return a + c,
                Variable::Instance(i) => self.instance_assignment[*i],
                Variable::Witness(i) => self.witness_assignment[*i],
                Variable::SymbolicLc(i) => lcv[*i],
            };
            if c.is_one() { a + x } else { a + x * c }
        })
    }
    pub fn assigned_value(&self, v: Variable) -> Option<F> {
        if self.is_in_setup_mode() { return None; }
        Some(match v {
            Variable::Zero => F::zero(),
            Variable::One => F::one(),
            Variable::Instance(i) => self.instance_assignment[i],
            Variable::Witness(i) => self.witness_assignment[i],
            Variable::SymbolicLc(i) => self.lc_values[i],
        })
    }
    pub fn new_input_variable<G: FnOnce() -> Result<F>>(&mut self, f: G) -> Result<Variable> {
        let i = self.num_instance_variables;
        self.num_instance_variables += 1;
        if !self.is_in_setup_mode() { let v = f()?; self.instance_assignment.push(v); }
        Ok(Variable::Instance(i))
    }
    pub fn new_lc(&mut self, lc: Lc<F>) -> Result<Variable> {
        let i = self.lcs.len();
        self.num_linear_combinations += 1;
        if !self.is_in_setup_mode() { let v = self.eval_in(&lc, &self.lc_values); self.lc_values.push(v); }
        self.lcs.push(lc);
        Ok(Variable::SymbolicLc(i))
    }
    pub fn enforce_constraint(&mut self, a: Lc<F>, b: Lc<F>, c: Lc<F>) -> Result<()> {
        self.num_constraints += 1;
        self.constraints.push(Constraint::R1cs(a, b, c));
        Ok(())
    }
    pub fn which_is_unsatisfied(&self) -> Result<Option<String>> {
        if self.is_in_setup_mode() { return Err(SynthesisError::AssignmentMissing); }
        let mut lcv = Vec::with_capacity(self.lcs.len());
        for lc in &self.lcs { let v = self.eval_in(lc, &lcv); lcv.push(v); }
        for (i, c) in self.constraints.iter().enumerate() {
            match c {
                Constraint::R1cs(a, b, c) => {
                    let (a, b, c) = (self.eval_in(a, &lcv), self.eval_in(b, &lcv), self.eval_in(c, &lcv));
                    if a * b != c { return Ok(Some(format!("r1cs #{}", i))); }
                }
                Constraint::Custom { name, args, check, .. } => {
                    let v: Vec<F> = args.iter().map(|a| self.eval_in(a, &lcv)).collect();
                    if !check(&v) { return Ok(Some(format!("{} #{}", name, i))); }
                }
            }
        }
        Ok(None)
    }
    pub fn is_satisfied(&self) -> Result<bool> { self.which_is_unsatisfied().map(|x| x.is_none()) }
    /// what a trusted setup sees: everything but the assignment
    pub fn shape(&self) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (self.num_instance_variables, self.num_witness_variables).hash(&mut h);
        let lc = |h: &mut std::collections::hash_map::DefaultHasher, l: &Lc<F>| { l.0.len().hash(h); for t in &l.0 { t.hash(h) } };
        for l in &self.lcs { lc(&mut h, l) }
        for c in &self.constraints {
            match c {
                Constraint::R1cs(x, y, z) => { 0u8.hash(&mut h); lc(&mut h, x); lc(&mut h, y); lc(&mut h, z) }
                Constraint::Custom { name, salt, args, .. } => { name.hash(&mut h); salt.hash(&mut h); args.len().hash(&mut h); args.iter().for_each(|l| lc(&mut h, l)) }
            }
        }
        h.finish()
    }
}

#[derive(Clone)]
pub enum ConstraintSystemRef<F: Field> { None, CS(Rc<RefCell<ConstraintSystem<F>>>) }
impl<F: Field> Debug for ConstraintSystemRef<F> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "CS") } }
impl<F: Field> PartialEq for ConstraintSystemRef<F> {
    fn eq(&self, o: &Self) -> bool { match (self, o) { (Self::None, Self::None) => true, (Self::CS(a), Self::CS(b)) => Rc::ptr_eq(a, b), _ => false } }
}
impl<F: Field> Eq for ConstraintSystemRef<F> {}
impl<F: Field> ConstraintSystemRef<F> {
    pub fn new(cs: ConstraintSystem<F>) -> Self { Self::CS(Rc::new(RefCell::new(cs))) }
    pub fn cs(&self) -> Self { self.clone() }
    pub fn get_lc(&self, v: Variable) -> Option<Lc<F>> { match v { Variable::SymbolicLc(i) => self.inner().and_then(|c| c.borrow().lcs.get(i).cloned()), _ => None } }
    pub fn is_none(&self) -> bool { matches!(self, Self::None) }
    pub fn or(self, o: Self) -> Self { if self.is_none() { o } else { self } }
    fn inner(&self) -> Option<&Rc<RefCell<ConstraintSystem<F>>>> { match self { Self::CS(a) => Some(a), _ => None } }
    pub fn borrow(&self) -> Option<Ref<'_, ConstraintSystem<F>>> { self.inner().map(|c| c.borrow()) }
    pub fn borrow_mut(&self) -> Option<RefMut<'_, ConstraintSystem<F>>> { self.inner().map(|c| c.borrow_mut()) }
    pub fn set_mode(&self, m: SynthesisMode) { if let Some(c) = self.inner() { c.borrow_mut().mode = m } }
    pub fn is_in_setup_mode(&self) -> bool { self.inner().map_or(false, |c| c.borrow().is_in_setup_mode()) }
    pub fn num_constraints(&self) -> usize { self.inner().map_or(0, |c| c.borrow().num_constraints) }
    pub fn num_instance_variables(&self) -> usize { self.inner().map_or(0, |c| c.borrow().num_instance_variables) }
    pub fn num_witness_variables(&self) -> usize { self.inner().map_or(0, |c| c.borrow().num_witness_variables) }
    pub fn assigned_value(&self, v: Variable) -> Option<F> { self.inner().and_then(|c| c.borrow().assigned_value(v)) }
    pub fn new_input_variable<G: FnOnce() -> Result<F>>(&self, f: G) -> Result<Variable> {
        let cs = self.inner().ok_or(SynthesisError::MissingCS)?;
        // the closure may read the constraint system
        if cs.borrow().is_in_setup_mode() { return cs.borrow_mut().new_input_variable(f); }
        let v = f()?;
        let r = cs.borrow_mut().new_input_variable(|| Ok(v)); r
    }
    pub fn new_witness_variable<G: FnOnce() -> Result<F>>(&self, f: G) -> Result<Variable> {
        let cs = self.inner().ok_or(SynthesisError::MissingCS)?;
        if cs.borrow().is_in_setup_mode() {
            let mut c = cs.borrow_mut();
            c.num_witness_variables += 1;
            return Ok(Variable::Witness(c.num_witness_variables - 1));
        }
        let i = cs.borrow().num_witness_variables;
        let o = cs.borrow().overrides.get(&i).cloned();
        let v = match o { Some(v) => { let _ = f(); cs.borrow_mut().used_overrides += 1; v } None => f()? };
        let mut c = cs.borrow_mut();
        // f may itself not allocate
        c.num_witness_variables += 1;
        c.witness_assignment.push(v);
        Ok(Variable::Witness(i))
    }
    pub fn new_lc(&self, lc: Lc<F>) -> Result<Variable> { self.inner().ok_or(SynthesisError::MissingCS)?.borrow_mut().new_lc(lc) }
    pub fn enforce_constraint(&self, a: Lc<F>, b: Lc<F>, c: Lc<F>) -> Result<()> {
        self.inner().ok_or(SynthesisError::MissingCS)?.borrow_mut().enforce_constraint(a, b, c)
    }
    pub fn enforce_custom(&self, name: &'static str, salt: u64, args: Vec<Lc<F>>, check: Rc<dyn Fn(&[F]) -> bool>) -> Result<()> {
        let mut c = self.inner().ok_or(SynthesisError::MissingCS)?.borrow_mut();
        c.num_constraints += 1;
        c.constraints.push(Constraint::Custom { name, salt, args, check });
        Ok(())
    }
    pub fn is_satisfied(&self) -> Result<bool> { self.inner().ok_or(SynthesisError::MissingCS)?.borrow().is_satisfied() }
    pub fn which_is_unsatisfied(&self) -> Result<Option<String>> { self.inner().ok_or(SynthesisError::MissingCS)?.borrow().which_is_unsatisfied() }
    pub fn inline_all_lcs(&self) {}
    pub fn set_optimization_goal(&self, _: OptimizationGoal) {}
    pub fn should_construct_matrices(&self) -> bool { self.inner().map_or(false, |c| matches!(c.borrow().mode, SynthesisMode::Setup | SynthesisMode::Prove { construct_matrices: true })) }
    pub fn finalize(&self) {}
    pub fn into_inner(self) -> Option<ConstraintSystem<F>> { match self { Self::CS(a) => Rc::try_unwrap(a).ok().map(|c| c.into_inner()), _ => None } }
}

#[derive(Clone, Debug)]
pub struct Namespace<F: Field>(ConstraintSystemRef<F>);
impl<F: Field> From<ConstraintSystemRef<F>> for Namespace<F> { fn from(c: ConstraintSystemRef<F>) -> Self { Namespace(c) } }
impl<F: Field> Namespace<F> {
    pub fn new(c: ConstraintSystemRef<F>, _: Option<()>) -> Self { Namespace(c) }
    pub fn cs(&self) -> ConstraintSystemRef<F> { self.0.clone() }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OptimizationGoal { None, Constraints, Weight }
pub trait ConstraintSynthesizer<F: Field> { fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<()>; }
#[macro_export]
macro_rules! lc { () => { $crate::r1cs::LinearCombination::zero() }; }
#[macro_export]
macro_rules! ns { ($cs:expr, $name:expr) => { $crate::r1cs::Namespace::from($cs.clone()) }; }
