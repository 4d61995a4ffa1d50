//! The gadgets of ark-crypto-primitives the repository uses (Bowe-Hopwood CRH, Blake2s with a parameter
//! block), each a single custom constraint stating its specification, and an idealised Groth16: a proof
//! names the key it was made for, the public inputs, and whether the assignment satisfied the circuit.
use crate::ec::{PairingEngine, TEModelParameters};
use crate::ff::*;
use crate::gadgets::*;
use crate::primitives::crh::{bowe_hopwood as bh, pedersen, FixedLengthCRH};
use crate::r1cs::*;
use crate::serialize::*;
use rand::Rng;
use std::borrow::Borrow;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::rc::Rc;

type Lc<F> = LinearCombination<F>;
type Res<T> = Result<T>;

// ------------------------------------------------------------------------------------ CRH
pub trait FixedLengthCRHGadget<H: FixedLengthCRH, F: Field>: Sized {
    type OutputVar: Clone + Debug;
    type ParametersVar: AllocVar<H::Parameters, F> + Clone;
    fn evaluate(parameters: &Self::ParametersVar, input: &[UInt8<F>]) -> Res<Self::OutputVar>;
}
pub struct CRHGadget<P: TEModelParameters, V>(PhantomData<(P, V)>);
pub struct ParametersVar<P: TEModelParameters>(pub bh::Parameters<P>);
impl<P: TEModelParameters> Clone for ParametersVar<P> { fn clone(&self) -> Self { ParametersVar(self.0.clone()) } }
impl<P: TEModelParameters, F: Field> AllocVar<bh::Parameters<P>, F> for ParametersVar<P> {
    fn new_variable<T: Borrow<bh::Parameters<P>>>(_: impl Into<Namespace<F>>, f: impl FnOnce() -> Res<T>, _: AllocationMode) -> Res<Self> { Ok(ParametersVar(f()?.borrow().clone())) }
}
impl<F: PrimeField, P: TEModelParameters<BaseField = F>, W: pedersen::Window + 'static> FixedLengthCRHGadget<bh::CRH<P, W>, F> for CRHGadget<P, FpVar<F>> {
    type OutputVar = TEAffineVar<P, FpVar<F>>;
    type ParametersVar = ParametersVar<P>;
    fn evaluate(parameters: &ParametersVar<P>, input: &[UInt8<F>]) -> Res<Self::OutputVar> {
        assert!(input.len() * 8 <= W::WINDOW_SIZE * W::NUM_WINDOWS * bh::CHUNK_SIZE, "input too long for the CRH");
        let params = parameters.0.clone();
        let native = move |b: &[u8]| { let p = <bh::CRH<P, W> as FixedLengthCRH>::evaluate(&params, b).unwrap(); let a = crate::ec::ProjectiveCurve::into_affine(&p); (a.x, a.y) };
        let cs = input.cs();
        if cs.is_none() {
            let (x, y) = native(&input.value()?);
            return Ok(TEAffineVar { x: FpVar::Constant(x), y: FpVar::Constant(y), _p: PhantomData });
        }
        let v = if cs.is_in_setup_mode() { Err(SynthesisError::AssignmentMissing) } else { input.value().map(|b| native(&b)) };
        let x = FpVar::new_witness(cs.clone(), || v.map(|v| v.0))?;
        let y = FpVar::new_witness(cs.clone(), || v.map(|v| v.1))?;
        let mut args = vec![x.lc_(), y.lc_()];
        for b in input { args.extend(b.bits.iter().map(|b| b.lc())); }
        cs.enforce_custom("bowe_hopwood", 0, args, Rc::new(move |v: &[F]| match to_bytes_(&v[2..]) { None => false, Some(b) => native(&b) == (v[0], v[1]) }))?;
        Ok(TEAffineVar { x, y, _p: PhantomData })
    }
}
fn to_bytes_<F: Field>(bits: &[F]) -> Option<Vec<u8>> {
    if bits.iter().any(|b| !b.is_zero() && !b.is_one()) { return None; }
    Some(bits.chunks(8).map(|c| c.iter().enumerate().map(|(i, b)| (b.is_one() as u8) << i).sum()).collect())
}

// ------------------------------------------------------------------------------------ Blake2s
const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4], [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13], [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11], [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5], [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
/// Blake2s of whole bytes with the given parameter words
pub fn blake2s_words(msg: &[u8], params: &[u32; 8]) -> [u32; 8] {
    let mut h = IV;
    for i in 0..8 { h[i] ^= params[i]; }
    let n = std::cmp::max(1, (msg.len() + 63) / 64);
    for i in 0..n {
        let end = std::cmp::min(msg.len(), 64 * (i + 1));
        let mut blk = [0u8; 64];
        blk[..end - 64 * i].copy_from_slice(&msg[64 * i..end]);
        let m: Vec<u32> = blk.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        let mut v = [0u32; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= end as u32;
        v[13] ^= ((end as u64) >> 32) as u32;
        if i + 1 == n { v[14] = !v[14]; }
        for s in &SIGMA {
            let mut g = |a: usize, b: usize, c: usize, d: usize, x: u32, y: u32| {
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(x); v[d] = (v[d] ^ v[a]).rotate_right(16);
                v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(12);
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(y); v[d] = (v[d] ^ v[a]).rotate_right(8);
                v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(7);
            };
            g(0, 4, 8, 12, m[s[0]], m[s[1]]); g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]); g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]); g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]); g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for j in 0..8 { h[j] ^= v[j] ^ v[j + 8]; }
    }
    h
}
#[derive(Clone, Debug)]
pub struct Blake2sWithParameterBlock {
    pub digest_length: u8, pub key_length: u8, pub fan_out: u8, pub depth: u8, pub leaf_length: u32, pub node_offset: u32,
    pub xof_digest_length: u16, pub node_depth: u8, pub inner_length: u8, pub salt: [u8; 8], pub personalization: [u8; 8],
}
impl Blake2sWithParameterBlock {
    pub fn parameters(&self) -> [u32; 8] {
        let w = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        let x = self.xof_digest_length.to_le_bytes();
        [w(&[self.digest_length, self.key_length, self.fan_out, self.depth]), self.leaf_length, self.node_offset,
         w(&[x[0], x[1], self.node_depth, self.inner_length]), w(&self.salt[..4]), w(&self.salt[4..]), w(&self.personalization[..4]), w(&self.personalization[4..])]
    }
}
pub fn evaluate_blake2s_with_parameters<F: PrimeField>(input: &[Boolean<F>], parameters: &[u32; 8]) -> Res<Vec<UInt32<F>>> {
    assert!(input.len() % 8 == 0);
    let params = *parameters;
    let cs = input.cs();
    let val = || -> Res<[u32; 8]> {
        let b = input.value()?;
        let bytes: Vec<u8> = b.chunks(8).map(|c| c.iter().enumerate().map(|(i, b)| (*b as u8) << i).sum()).collect();
        Ok(blake2s_words(&bytes, &params))
    };
    if cs.is_none() { return Ok(val()?.iter().map(|w| UInt32::constant(*w)).collect()); }
    let v = if cs.is_in_setup_mode() { Err(SynthesisError::AssignmentMissing) } else { val() };
    let out = (0..8).map(|i| UInt32::new_witness(cs.clone(), || v.map(|v| v[i]))).collect::<Res<Vec<_>>>()?;
    let mut args: Vec<Lc<F>> = vec![];
    for w in &out { args.extend(w.bits.iter().map(|b| b.lc())); }
    args.extend(input.iter().map(|b| b.lc()));
    let salt = params.iter().fold(7u64, |a, w| a.wrapping_mul(0x100000001b3) ^ *w as u64);
    cs.enforce_custom("blake2s", salt, args, Rc::new(move |v: &[F]| {
        let (o, i) = match (to_bytes_(&v[..256]), to_bytes_(&v[256..])) { (Some(o), Some(i)) => (o, i), _ => return false };
        let h: Vec<u8> = blake2s_words(&i, &params).iter().flat_map(|w| w.to_le_bytes().to_vec()).collect();
        h == o
    }))?;
    Ok(out)
}

// ------------------------------------------------------------------------------------ Groth16
pub struct Groth16<E: PairingEngine>(PhantomData<E>);
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct VerifyingKey<E: PairingEngine> { pub id: u64, pub shape: u64, pub inputs: u64, _p: PhantomData<E> }
pub type PreparedVerifyingKey<E> = VerifyingKey<E>;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ProvingKey<E: PairingEngine> { pub vk: VerifyingKey<E> }
/// `binding` commits to the key, the public inputs and the verdict
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Proof<E: PairingEngine> { pub binding: [u64; 4], _p: PhantomData<E> }
impl<E: PairingEngine> Default for VerifyingKey<E> { fn default() -> Self { VerifyingKey { id: 0, shape: 0, inputs: 0, _p: PhantomData } } }
impl<E: PairingEngine> Default for ProvingKey<E> { fn default() -> Self { ProvingKey { vk: Default::default() } } }
impl<E: PairingEngine> Default for Proof<E> { fn default() -> Self { Proof { binding: [0; 4], _p: PhantomData } } }
macro_rules! ser { ($t:ident, $n:expr, $s:ident => $get:expr, $w:ident => $mk:expr) => {
    impl<E: PairingEngine> CanonicalSerialize for $t<E> {
        fn serialize<W: Write>(&self, mut w: W) -> std::result::Result<(), SerializationError> { let $s = self; for x in $get.iter() { x.serialize(&mut w)?; } Ok(()) }
        fn serialized_size(&self) -> usize { 8 * $n }
    }
    impl<E: PairingEngine> CanonicalDeserialize for $t<E> {
        fn deserialize<R: Read>(mut r: R) -> std::result::Result<Self, SerializationError> { let mut $w = [0u64; $n]; for x in $w.iter_mut() { *x = u64::deserialize(&mut r)?; } $mk }
    }
}}
const VK_MAGIC: u64 = 0x6b765f36316874ff;
const PROOF_MAGIC: u64 = 0x70725f36316874ff;
ser!(VerifyingKey, 4, s => [VK_MAGIC, s.id, s.shape, s.inputs], w => if w[0] == VK_MAGIC { Ok(VerifyingKey { id: w[1], shape: w[2], inputs: w[3], _p: PhantomData }) } else { Err(SerializationError::InvalidData) });
ser!(Proof, 5, s => [PROOF_MAGIC, s.binding[0], s.binding[1], s.binding[2], s.binding[3]], w => if w[0] == PROOF_MAGIC { Ok(Proof { binding: [w[1], w[2], w[3], w[4]], _p: PhantomData }) } else { Err(SerializationError::InvalidData) });
ser!(ProvingKey, 4, s => [VK_MAGIC, s.vk.id, s.vk.shape, s.vk.inputs], w => Ok(ProvingKey { vk: VerifyingKey { id: w[1], shape: w[2], inputs: w[3], _p: PhantomData } }));

fn bind(vk: (u64, u64), inputs: &[Vec<u64>], ok: bool) -> [u64; 4] {
    let mut m = vec![ok as u8];
    for w in [vk.0, vk.1, inputs.len() as u64].iter().chain(inputs.iter().flatten()) { m.extend_from_slice(&w.to_le_bytes()); }
    let h = blake2s_words(&m, &[0x01010020, 0, 0, 0, 0, 0, 0, 0]);
    // kept below 2^250, to fit any scalar field
    [h[0] as u64 | (h[1] as u64) << 32, h[2] as u64 | (h[3] as u64) << 32, h[4] as u64 | (h[5] as u64) << 32, (h[6] as u64 | (h[7] as u64) << 32) >> 14]
}
fn limbs<F: PrimeField>(v: &F) -> Vec<u64> { let mut w = v.into_repr().as_ref().to_vec(); while w.last() == Some(&0) { w.pop(); } w.insert(0, w.len() as u64); w }

pub fn generate_random_parameters<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>, R: Rng>(circuit: C, rng: &mut R) -> Res<ProvingKey<E>> {
    let cs = ConstraintSystem::<E::Fr>::new_ref();
    cs.set_mode(SynthesisMode::Setup);
    circuit.generate_constraints(cs.clone())?;
    let (shape, inputs) = { let c = cs.borrow().unwrap(); (c.shape(), c.num_instance_variables as u64) };
    Ok(ProvingKey { vk: VerifyingKey { id: rng.gen(), shape, inputs, _p: PhantomData } })
}
pub fn create_proof_no_zk<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>>(circuit: C, pk: &ProvingKey<E>) -> Res<Proof<E>> {
    let cs = ConstraintSystem::<E::Fr>::new_ref();
    circuit.generate_constraints(cs.clone())?;
    let c = cs.borrow().unwrap();
    // a proof over another circuit, or by an unsatisfying assignment, convinces nobody
    let ok = c.shape() == pk.vk.shape && c.is_satisfied()?;
    let inputs: Vec<Vec<u64>> = c.instance_assignment[1..].iter().map(limbs).collect();
    Ok(Proof { binding: bind((pk.vk.id, pk.vk.shape), &inputs, ok), _p: PhantomData })
}
pub fn create_random_proof<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>, R: Rng>(circuit: C, pk: &ProvingKey<E>, _: &mut R) -> Res<Proof<E>> { create_proof_no_zk(circuit, pk) }
pub fn prepare_verifying_key<E: PairingEngine>(vk: &VerifyingKey<E>) -> PreparedVerifyingKey<E> { vk.clone() }
pub fn verify_proof<E: PairingEngine>(pvk: &PreparedVerifyingKey<E>, proof: &Proof<E>, inputs: &[E::Fr]) -> Res<bool> {
    if inputs.len() as u64 + 1 != pvk.inputs { return Err(SynthesisError::MalformedVerifyingKey); }
    Ok(proof.binding == bind((pvk.id, pvk.shape), &inputs.iter().map(limbs).collect::<Vec<_>>(), true))
}

// ------------------------------------------------------------------------------------ Groth16, in a circuit
pub struct BooleanInputVar<F: PrimeField, CF: PrimeField> { pub val: Vec<Vec<Boolean<CF>>>, _p: PhantomData<F> }
impl<F: PrimeField, CF: PrimeField> BooleanInputVar<F, CF> { pub fn new(val: Vec<Vec<Boolean<CF>>>) -> Self { Self { val, _p: PhantomData } } }
pub struct ProofVar<E: PairingEngine, P: PairingVar<E, CF>, CF: PrimeField = <E as PairingEngine>::Fq> { pub a: FpVar<CF>, _p: PhantomData<(E, P)> }
pub struct VerifyingKeyVar<E: PairingEngine, P: PairingVar<E, CF>, CF: PrimeField = <E as PairingEngine>::Fq> { pub vk: VerifyingKey<E>, _p: PhantomData<(P, CF)> }
fn embed<F: PrimeField>(b: &[u64; 4]) -> F { let mut r = F::BigInt::default(); r.as_mut()[..4].copy_from_slice(b); F::from_repr(r).unwrap() }
impl<E: PairingEngine, P: PairingVar<E, CF> + 'static, CF: PrimeField> AllocVar<Proof<E>, CF> for ProofVar<E, P, CF> {
    fn new_variable<T: Borrow<Proof<E>>>(cs: impl Into<Namespace<CF>>, f: impl FnOnce() -> Res<T>, mode: AllocationMode) -> Res<Self> {
        Ok(ProofVar { a: FpVar::new_variable(cs, || f().map(|p| embed::<CF>(&p.borrow().binding)), mode)?, _p: PhantomData })
    }
}
impl<E: PairingEngine, P: PairingVar<E, CF> + 'static, CF: PrimeField> AllocVar<VerifyingKey<E>, CF> for VerifyingKeyVar<E, P, CF> {
    fn new_variable<T: Borrow<VerifyingKey<E>>>(_: impl Into<Namespace<CF>>, f: impl FnOnce() -> Res<T>, mode: AllocationMode) -> Res<Self> {
        assert_eq!(mode, AllocationMode::Constant, "the idealised verifying key is a constant");
        Ok(VerifyingKeyVar { vk: f()?.borrow().clone(), _p: PhantomData })
    }
}
pub struct Groth16VerifierGadget<E: PairingEngine, P>(PhantomData<(E, P)>);
pub trait SNARKGadget<F: PrimeField, CF: PrimeField, S> {
    type VerifyingKeyVar;
    type ProofVar;
    type InputVar;
    fn verify(vk: &Self::VerifyingKeyVar, x: &Self::InputVar, proof: &Self::ProofVar) -> Res<Boolean<CF>>;
}
impl<E: PairingEngine, P: PairingVar<E, CF> + 'static, CF: PrimeField> SNARKGadget<E::Fr, CF, Groth16<E>> for Groth16VerifierGadget<E, P> {
    type VerifyingKeyVar = VerifyingKeyVar<E, P, CF>;
    type ProofVar = ProofVar<E, P, CF>;
    type InputVar = BooleanInputVar<E::Fr, CF>;
    fn verify(vk: &Self::VerifyingKeyVar, x: &Self::InputVar, proof: &Self::ProofVar) -> Res<Boolean<CF>> {
        let vk = vk.vk.clone();
        let lens: Vec<usize> = x.val.iter().map(|v| v.len()).collect();
        let cs = proof.a.cs();
        let judge = move |b: &[CF]| -> bool {
            let mut at = 1;
            let mut ins = vec![];
            for l in &lens {
                // little-endian bits of a public input
                let bits: Vec<bool> = b[at..at + l].iter().map(|x| !x.is_zero()).collect();
                at += l;
                match E::Fr::from_repr(<E::Fr as PrimeField>::BigInt::from_bits_le(&bits)) { Some(v) => ins.push(limbs(&v)), None => return false }
            }
            ins.len() as u64 + 1 == vk.inputs && embed::<CF>(&bind((vk.id, vk.shape), &ins, true)) == b[0]
        };
        let mut args = vec![proof.a.lc_()];
        args.extend(x.val.iter().flatten().map(|b| b.lc()));
        let vals = || -> Res<bool> { let mut v = vec![proof.a.value()?]; for b in x.val.iter().flatten() { v.push(CF::from(b.value()?)); } Ok(judge(&v)) };
        let ok = Boolean::new_witness(cs.clone(), || vals())?;
        args.push(ok.lc());
        let j = Rc::new(judge);
        let id = proof_salt(x.val.len());
        cs.enforce_custom("groth16", id, args, Rc::new(move |v: &[CF]| j(&v[..v.len() - 1]) == v[v.len() - 1].is_one()))?;
        Ok(ok)
    }
}
fn proof_salt(n: usize) -> u64 { n as u64 }
