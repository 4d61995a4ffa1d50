//! Recorded constraint systems as data: toy fields on which TLC can explore every assignment, and a
//! malicious prover that tries to complete a dishonest choice of witnesses into a satisfying one.
use arkshim::bigint::BigInt;
use arkshim::ff::*;
use arkshim::r1cs::*;
use drvutil::{json, Value};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;

// ------------------------------------------------------------------------------------ toy fields
const fn inv64(p: u64) -> u64 {
    // p^-1 mod 2^64, by Newton's iteration
    let mut x = 1u64;
    let mut i = 0;
    while i < 7 {
        x = x.wrapping_mul(2u64.wrapping_sub(p.wrapping_mul(x)));
        i += 1;
    }
    x
}
const fn bits_of(p: u64) -> u32 {
    64 - p.leading_zeros()
}
macro_rules! toy {
    ($name:ident, $params:ident, $p:expr, $qnr:expr, $two:expr) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct $params;
        impl FftParameters for $params {
            type BigInt = BigInt<1>;
            const TWO_ADICITY: u32 = $two;
        }
        impl FpParameters for $params {
            const MODULUS: BigInt<1> = BigInt([$p]);
            const MODULUS_BITS: u32 = bits_of($p);
            const CAPACITY: u32 = bits_of($p) - 1;
            const REPR_SHAVE_BITS: u32 = 64 - bits_of($p);
            const R: BigInt<1> = BigInt([((1u128 << 64) % $p) as u64]);
            const R2: BigInt<1> = BigInt([((((1u128 << 64) % $p) * ((1u128 << 64) % $p)) % $p) as u64]);
            const INV: u64 = 0u64.wrapping_sub(inv64($p));
            const T: BigInt<1> = BigInt([($p - 1) >> $two]);
            const T_MINUS_ONE_DIV_TWO: BigInt<1> = BigInt([((($p - 1) >> $two) - 1) / 2]);
            const MODULUS_MINUS_ONE_DIV_TWO: BigInt<1> = BigInt([($p - 1) / 2]);
            const QNR: u64 = $qnr;
        }
        pub type $name = Fp<$params, 1>;
    };
}
toy!(F11, P11, 11, 2, 1);
toy!(F13, P13, 13, 2, 2);
toy!(F17, P17, 17, 3, 4);
toy!(F31, P31, 31, 3, 1);
toy!(F61, P61, 61, 2, 2);

pub fn small<F: PrimeField>(x: &F) -> u64 {
    x.into_repr().as_ref()[0]
}

// ------------------------------------------------------------------------------------ flattened systems
pub type Flc<F> = Vec<(F, usize)>;
pub enum FCon<F: PrimeField> {
    R1(Flc<F>, Flc<F>, Flc<F>),
    Custom { name: &'static str, salt: u64, args: Vec<Flc<F>>, check: Rc<dyn Fn(&[F]) -> bool> },
}
/// variables: 0 = one, 1 .. ninst-1 = instance, then witnesses
pub struct Flat<F: PrimeField> {
    pub ninst: usize,
    pub vals: Vec<F>,
    pub cons: Vec<FCon<F>>,
    by_var: Vec<Vec<u32>>,
    lcs: Vec<Flc<F>>,
}
fn merge<F: PrimeField>(v: Flc<F>) -> Flc<F> {
    let mut m: BTreeMap<usize, F> = BTreeMap::new();
    for (c, i) in v {
        *m.entry(i).or_insert_with(F::zero) += c;
    }
    m.into_iter().filter(|(_, c)| !c.is_zero()).map(|(i, c)| (c, i)).collect()
}
impl<F: PrimeField> Flat<F> {
    pub fn of(cs: &ConstraintSystemRef<F>) -> Self {
        let c = cs.borrow().expect("a constraint system");
        let mut f = Flat { ninst: c.num_instance_variables, vals: c.instance_assignment.clone(), cons: vec![], by_var: vec![], lcs: vec![] };
        f.vals.extend_from_slice(&c.witness_assignment);
        for l in &c.lcs {
            let x = f.lc(l);
            f.lcs.push(x);
        }
        for k in &c.constraints {
            let x = match k {
                Constraint::R1cs(a, b, c) => FCon::R1(f.lc(a), f.lc(b), f.lc(c)),
                Constraint::Custom { name, salt, args, check } => {
                    FCon::Custom { name: *name, salt: *salt, args: args.iter().map(|a| f.lc(a)).collect(), check: check.clone() }
                }
            };
            f.cons.push(x);
        }
        f.by_var = vec![vec![]; f.vals.len()];
        for i in 0..f.cons.len() {
            for v in f.vars_of(i) {
                f.by_var[v].push(i as u32);
            }
        }
        f
    }
    pub fn var(&self, v: Variable) -> Option<usize> {
        match v {
            Variable::One => Some(0),
            Variable::Instance(i) => Some(i),
            Variable::Witness(i) => Some(self.ninst + i),
            _ => None,
        }
    }
    pub fn lc(&self, l: &LinearCombination<F>) -> Flc<F> {
        let mut r = vec![];
        for (c, v) in l.iter() {
            match v {
                Variable::Zero => {}
                Variable::SymbolicLc(i) => r.extend(self.lcs[*i].iter().map(|(d, j)| (*d * c, *j))),
                v => r.push((*c, self.var(*v).unwrap())),
            }
        }
        merge(r)
    }
    fn vars_of(&self, i: usize) -> BTreeSet<usize> {
        match &self.cons[i] {
            FCon::R1(a, b, c) => a.iter().chain(b).chain(c).map(|t| t.1).collect(),
            FCon::Custom { args, .. } => args.iter().flatten().map(|t| t.1).collect(),
        }
    }
    fn ev(l: &Flc<F>, vals: &[F]) -> F {
        l.iter().fold(F::zero(), |a, (c, v)| a + *c * vals[*v])
    }
    fn holds(&self, i: usize, vals: &[F]) -> bool {
        match &self.cons[i] {
            FCon::R1(a, b, c) => Self::ev(a, vals) * Self::ev(b, vals) == Self::ev(c, vals),
            FCon::Custom { args, check, .. } => check(&args.iter().map(|a| Self::ev(a, vals)).collect::<Vec<_>>()),
        }
    }
    pub fn satisfied(&self, vals: &[F]) -> bool {
        (0..self.cons.len()).all(|i| self.holds(i, vals))
    }
    pub fn boolean_witnesses(&self) -> Vec<usize> {
        // b (1 - b) = 0
        let mut r = BTreeSet::new();
        for c in &self.cons {
            if let FCon::R1(a, b, c) = c {
                if c.is_empty() {
                    for (x, y) in &[(a, b), (b, a)] {
                        if x.len() == 1 && x[0].1 >= self.ninst && y.len() == 2 && y[0].1 == 0 && y[1].1 == x[0].1 && y[0].0 + y[1].0 == F::zero() {
                            r.insert(x[0].1);
                        }
                    }
                }
            }
        }
        r.into_iter().collect()
    }

    /// Completes dishonest values into an assignment satisfying every constraint, changing variables that
    /// are neither `fixed` nor part of the flips, each at most once.
    pub fn forge(&self, fixed: &BTreeSet<usize>, flips: &[(usize, F)], from_low: bool, budget: usize) -> Option<Vec<F>> {
        let mut vals = self.vals.clone();
        let mut touched = BTreeSet::new();
        let mut dirty = VecDeque::new();
        let set = |vals: &mut Vec<F>, dirty: &mut VecDeque<u32>, touched: &mut BTreeSet<usize>, v: usize, x: F| {
            touched.insert(v);
            if vals[v] != x {
                vals[v] = x;
                dirty.extend(self.by_var[v].iter().cloned());
            }
        };
        for (v, x) in flips {
            set(&mut vals, &mut dirty, &mut touched, *v, *x);
        }
        // an unsatisfied system needs repairs beyond the flips
        for i in 0..self.cons.len() {
            if !self.holds(i, &vals) {
                dirty.push_back(i as u32);
            }
        }
        let mut steps = 0;
        while let Some(i) = dirty.pop_front() {
            let i = i as usize;
            if self.holds(i, &vals) {
                continue;
            }
            steps += 1;
            if steps > budget {
                return None;
            }
            let free = |v: usize, t: &BTreeSet<usize>| v >= self.ninst && !fixed.contains(&v) && !t.contains(&v);
            match &self.cons[i] {
                FCon::R1(a, b, c) => {
                    let mut vs: Vec<usize> = self.vars_of(i).into_iter().filter(|v| free(*v, &touched)).collect();
                    if !from_low {
                        vs.reverse();
                    }
                    let mut done = false;
                    for v in vs {
                        let split = |l: &Flc<F>| {
                            let k = l.iter().find(|t| t.1 == v).map_or(F::zero(), |t| t.0);
                            (Self::ev(l, &vals) - k * vals[v], k)
                        };
                        let ((a0, a1), (b0, b1), (c0, c1)) = (split(a), split(b), split(c));
                        // (a0 + a1 x)(b0 + b1 x) = c0 + c1 x
                        let q = a1 * b1;
                        let l = a0 * b1 + a1 * b0 - c1;
                        let k = a0 * b0 - c0;
                        let x = if q.is_zero() {
                            if l.is_zero() { None } else { Some(-k * l.inverse().unwrap()) }
                        } else {
                            let d = l * l - q * k * F::from(4u64);
                            d.sqrt().map(|s| (s - l) * (q + q).inverse().unwrap())
                        };
                        if let Some(x) = x {
                            set(&mut vals, &mut dirty, &mut touched, v, x);
                            done = true;
                            break;
                        }
                    }
                    if !done {
                        return None;
                    }
                }
                FCon::Custom { name, salt, args, .. } if *name == "canonical_bits" && *salt == 1 => {
                    let bits = Self::ev(&args[0], &vals).into_repr().to_bits_le();
                    for (k, l) in args[1..].iter().enumerate() {
                        let want = if bits[k] { F::one() } else { F::zero() };
                        if Self::ev(l, &vals) == want {
                            continue;
                        }
                        if l.len() == 1 && l[0].0.is_one() && free(l[0].1, &touched) {
                            set(&mut vals, &mut dirty, &mut touched, l[0].1, want);
                        } else {
                            return None;
                        }
                    }
                }
                _ => return None,
            }
        }
        if self.satisfied(&vals) { Some(vals) } else { None }
    }

    /// what TLC explores; `inputs` are allocated before anything else, `roles` are the linear combinations the relation is about
    pub fn export(&self, gadget: &str, p: u64, inputs: &[Flc<F>], roles: Value, extra: Value) -> Value {
        let ninputs = inputs.iter().flatten().map(|t| t.1 + 1).max().unwrap_or(1).max(self.ninst);
        let j = |l: &Flc<F>| -> Value { l.iter().map(|(c, v)| json!([small(c), v])).collect() };
        let mut at: Vec<Vec<Value>> = vec![vec![]; self.vals.len()];
        for i in 0..self.cons.len() {
            let last = self.vars_of(i).into_iter().max().unwrap_or(0);
            at[last].push(match &self.cons[i] {
                FCon::R1(a, b, c) => json!({"t": "r1cs", "args": [j(a), j(b), j(c)], "salt": 0}),
                FCon::Custom { name, salt, args, .. } => json!({"t": name, "salt": salt, "args": args.iter().map(|a| j(a)).collect::<Vec<_>>()}),
            });
        }
        json!({"op": "system", "gadget": gadget, "p": p, "inputs": ninputs, "nvars": self.vals.len(), "at": at, "roles": roles, "extra": extra})
    }
    pub fn role(&self, l: &LinearCombination<F>) -> Value {
        self.lc(l).iter().map(|(c, v)| json!([small(c), v])).collect()
    }
}

// ------------------------------------------------------------------------------------ dishonest points
use arkshim::curves::bls12_377::{Fq, Fq2, G1Affine, G2Affine};
use arkshim::ec::AffineCurve;
use rand::Rng;

/// what a dishonest prover assigns at allocation; everything later is computed honestly from it
#[derive(Clone)]
pub struct Attack {
    pub kind: &'static str,
    pub what: String,
    pub over: BTreeMap<usize, Fq>,
}
fn b1() -> Fq {
    let g = G1Affine::prime_subgroup_generator();
    g.y.square() - g.x.square() * g.x
}
fn b2() -> Fq2 {
    let g = G2Affine::prime_subgroup_generator();
    g.y.square() - g.x.square() * g.x
}
pub fn system_with<F: PrimeField>(over: &BTreeMap<usize, F>) -> ConstraintSystemRef<F> {
    let cs = ConstraintSystem::<F>::new_ref();
    cs.borrow_mut().expect("a constraint system").overrides = over.clone();
    cs
}
/// witness indices at which an affine point was allocated as (x, y, 1)
pub fn points_g1(w: &[Fq]) -> Vec<usize> {
    let b = b1();
    (0..w.len().saturating_sub(2)).filter(|i| w[i + 2].is_one() && !w[*i].is_zero() && w[i + 1].square() == w[*i].square() * w[*i] + b).collect()
}
pub fn points_g2(w: &[Fq]) -> Vec<usize> {
    let b = b2();
    (0..w.len().saturating_sub(5))
        .filter(|i| {
            let (x, y) = (Fq2::new(w[*i], w[i + 1]), Fq2::new(w[i + 2], w[i + 3]));
            w[i + 4].is_one() && w[i + 5].is_zero() && !x.is_zero() && y.square() == x.square() * x + b
        })
        .collect()
}
/// x y z (coordinates as the constraints see them) such that the curve equation holds
fn rescale<F: SquareRootField>(x: F, b: F, z: F) -> Option<F> {
    let z2 = z.square();
    ((x.square() * x + b * z2 * z) * z.inverse()?).sqrt()
}
pub fn attacks_g1(w: &[Fq], i: usize, nbits: usize, rng: &mut impl Rng) -> Vec<Attack> {
    let b = b1();
    let mut r = vec![];
    let mut put = |kind, what: String, x: Fq, y: Fq, z: Fq| {
        let over = vec![(i, x), (i + 1, y), (i + 2, z)].into_iter().collect();
        r.push(Attack { kind, what, over })
    };
    let (x, y) = (w[i], w[i + 1]);
    put("neg", String::new(), x, -y, Fq::one());
    let mut n = 0;
    while n < 3 {
        let z = Fq::rand(rng);
        if let Some(y) = rescale(x, b, z) {
            put("rescale", format!("{}+", n), x, y, z);
            put("rescale", format!("{}-", n), x, -y, z);
            n += 1;
        }
    }
    let mut n = 0;
    while n < 2 {
        let x = Fq::rand(rng);
        if let Some(y) = rescale(x, b, Fq::one()) {
            put("other", format!("{}+", n), x, y, Fq::one());
            put("other", format!("{}-", n), x, -y, Fq::one());
            n += 1;
        }
    }
    for k in 0..nbits {
        let mut bits = x.into_repr().to_bits_le();
        bits[k] = !bits[k];
        if let Some(x) = Fq::from_repr(<Fq as PrimeField>::BigInt::from_bits_le(&bits)) {
            if let Some(y) = rescale(x, b, Fq::one()) {
                put("bit", format!("{}+", k), x, y, Fq::one());
                put("bit", format!("{}-", k), x, -y, Fq::one());
            }
        }
    }
    r
}
pub fn attacks_g2(w: &[Fq], i: usize, rng: &mut impl Rng) -> Vec<Attack> {
    let b = b2();
    let mut r = vec![];
    let mut put = |kind, what: String, x: Fq2, y: Fq2, z: Fq2| {
        let over = vec![(i, x.c0), (i + 1, x.c1), (i + 2, y.c0), (i + 3, y.c1), (i + 4, z.c0), (i + 5, z.c1)].into_iter().collect();
        r.push(Attack { kind, what, over })
    };
    let (x, y) = (Fq2::new(w[i], w[i + 1]), Fq2::new(w[i + 2], w[i + 3]));
    put("neg", String::new(), x, -y, Fq2::one());
    let mut n = 0;
    while n < 2 {
        let z = Fq2::rand(rng);
        if let Some(y) = rescale(x, b, z) {
            put("rescale", format!("{}+", n), x, y, z);
            put("rescale", format!("{}-", n), x, -y, z);
            n += 1;
        }
    }
    let g = G2Affine::prime_subgroup_generator();
    put("other", "generator".into(), g.x, g.y, Fq2::one());
    r
}
