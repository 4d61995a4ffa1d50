//! Hash to curve with scripted and recorded hashers.
use ark_bls12_377::{g1, g2, Fq, Fq2};
use ark_ec::models::{
    short_weierstrass_jacobian::{GroupAffine, GroupProjective},
    SWModelParameters,
};
use ark_ff::{BigInteger, FpParameters, PrimeField, UniformRand, Zero};
use bls_crypto::{
    hash_to_curve::{
        from_random_bytes, hash_length, YSignFlags, try_and_increment::TryAndIncrement, try_and_increment_cip22::TryAndIncrementCIP22, HashToCurve,
    },
    hashers::{composite::{CompositeHasher, CRH}, DirectHasher},
    BLSError, Hasher,
};
use ark_serialize::Flags;
use drvutil::*;
use rand::{Rng, RngCore};
use std::cell::RefCell;

pub fn err_name(e: &BLSError) -> String {
    match e {
        BLSError::DomainTooLarge(n) => format!("DomainTooLarge({})", n),
        BLSError::HashToCurveError => "HashToCurveError".into(),
        BLSError::VerificationFailed => "VerificationFailed".into(),
        BLSError::UnevenNumKeysMessages => "UnevenNumKeysMessages".into(),
        other => {
            let s = format!("{:?}", other);
            s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
        }
    }
}

struct Call {
    crh: bool,
    domain: Vec<u8>,
    input: Vec<u8>,
    len: usize,
    out: Result<Vec<u8>, String>,
}

/// Records what the code under test asks of its hasher.
struct Recording<'a, H> {
    inner: &'a H,
    calls: RefCell<Vec<Call>>,
}
impl<'a, H: Hasher<Error = BLSError>> Recording<'a, H> {
    fn note(&self, crh: bool, d: &[u8], m: &[u8], len: usize, r: Result<Vec<u8>, BLSError>) -> Result<Vec<u8>, BLSError> {
        self.calls.borrow_mut().push(Call {
            crh,
            domain: d.to_vec(),
            input: m.to_vec(),
            len,
            out: r.as_ref().map(|v| v.clone()).map_err(err_name),
        });
        r
    }
}
impl<'a, H: Hasher<Error = BLSError>> Hasher for Recording<'a, H> {
    type Error = BLSError;
    fn crh(&self, d: &[u8], m: &[u8], len: usize) -> Result<Vec<u8>, BLSError> {
        self.note(true, d, m, len, self.inner.crh(d, m, len))
    }
    fn xof(&self, d: &[u8], m: &[u8], len: usize) -> Result<Vec<u8>, BLSError> {
        self.note(false, d, m, len, self.inner.xof(d, m, len))
    }
}

/// candidate(c) is given; crh is an injective token.
struct Mock {
    legacy: bool,
    cands: Vec<Option<Vec<u8>>>,
    inputs: RefCell<Vec<Vec<u8>>>,
}
impl Hasher for Mock {
    type Error = BLSError;
    fn crh(&self, _d: &[u8], m: &[u8], _len: usize) -> Result<Vec<u8>, BLSError> {
        let mut t = self.inputs.borrow_mut();
        let k = t.iter().position(|x| x == m).unwrap_or_else(|| {
            t.push(m.to_vec());
            t.len() - 1
        });
        let mut o = vec![0xC7u8; 32];
        o[..8].copy_from_slice(&(k as u64).to_le_bytes());
        Ok(o)
    }
    fn xof(&self, _d: &[u8], m: &[u8], len: usize) -> Result<Vec<u8>, BLSError> {
        let c = if self.legacy {
            let mut b = [0u8; 8];
            b.copy_from_slice(&m[..8]);
            self.inputs.borrow()[u64::from_le_bytes(b) as usize][0]
        } else {
            m[0]
        } as usize;
        let cand = self.cands.get(c).unwrap_or_else(|| self.cands.last().unwrap());
        match cand {
            None => Err(BLSError::DomainTooLarge(77)),
            Some(v) => {
                let mut v = v.clone();
                v.resize(len, 0xA5);
                Ok(v)
            }
        }
    }
}

pub trait Curve: SWModelParameters + Sized {
    const NAME: &'static str;
    const NBYTES: usize;
    /// the x coordinate encoded in little endian, without flags; None: some component is not reduced
    fn x_of(bytes: &[u8]) -> Option<Self::BaseField>;
    fn x_bytes(x: &Self::BaseField) -> Vec<u8>;
    /// order of the prime subgroup
    fn mul_r(p: &GroupAffine<Self>) -> GroupProjective<Self>;
}
fn fq_of(b: &[u8]) -> Option<Fq> {
    let mut b = b.to_vec();
    b[47] &= 1;
    let mut bits = vec![];
    for x in b {
        for i in 0..8 {
            bits.push((x >> i) & 1 == 1)
        }
    }
    Fq::from_repr(<Fq as PrimeField>::BigInt::from_bits_le(&bits))
}
fn fq_bytes(x: &Fq) -> Vec<u8> {
    let mut v = x.into_repr().to_bytes_le();
    v.resize(48, 0);
    v
}
fn times_r<P: SWModelParameters>(p: &GroupAffine<P>) -> GroupProjective<P> {
    p.mul_bits(ark_ff::BitIteratorBE::new(<P::ScalarField as PrimeField>::char()))
}
impl Curve for g1::Parameters {
    const NAME: &'static str = "g1";
    const NBYTES: usize = 48;
    fn x_of(b: &[u8]) -> Option<Fq> {
        fq_of(&b[..48])
    }
    fn x_bytes(x: &Fq) -> Vec<u8> {
        fq_bytes(x)
    }
    fn mul_r(p: &GroupAffine<Self>) -> GroupProjective<Self> {
        times_r(p)
    }
}
impl Curve for g2::Parameters {
    const NAME: &'static str = "g2";
    const NBYTES: usize = 96;
    fn x_of(b: &[u8]) -> Option<Fq2> {
        Some(Fq2::new(fq_of(&b[..48])?, fq_of(&b[48..96])?))
    }
    fn x_bytes(x: &Fq2) -> Vec<u8> {
        let mut v = fq_bytes(&x.c0);
        v.extend(fq_bytes(&x.c1));
        v
    }
    fn mul_r(p: &GroupAffine<Self>) -> GroupProjective<Self> {
        times_r(p)
    }
}

/// what a candidate encoding denotes: kind, and the cofactor multiple for (negative, positive) y
fn classify<P: Curve>(b: &[u8]) -> (&'static str, Option<[GroupProjective<P>; 2]>) {
    let last = b[P::NBYTES - 1];
    let x = match P::x_of(b) {
        None => return ("nopoint", None),
        Some(x) => x,
    };
    if x.is_zero() && last & 0x40 != 0 {
        return ("torsion", None);
    }
    match GroupAffine::<P>::get_point_from_x(x, false) {
        None => ("nopoint", None),
        Some(p) => {
            // p has the smaller y
            let neg = GroupProjective::from(p.scale_by_cofactor());
            if neg.is_zero() {
                ("torsion", None)
            } else {
                ("good", Some([neg, -neg]))
            }
        }
    }
}

struct Points<P: Curve> {
    good: Vec<u8>,
    good_inf: Vec<u8>,
    nores: Vec<u8>,
    torsion: Vec<u8>,
    _p: std::marker::PhantomData<P>,
}
fn points<P: Curve, R: Rng>(rng: &mut R) -> Points<P> {
    let good = loop {
        let x = P::BaseField::rand(rng);
        if GroupAffine::<P>::get_point_from_x(x, true).is_some() {
            break P::x_bytes(&x);
        }
    };
    let nores = loop {
        let x = P::BaseField::rand(rng);
        if GroupAffine::<P>::get_point_from_x(x, true).is_none() {
            break P::x_bytes(&x);
        }
    };
    let torsion = loop {
        let x = P::BaseField::rand(rng);
        if let Some(p) = GroupAffine::<P>::get_point_from_x(x, true) {
            let t = P::mul_r(&p);
            if !t.is_zero() {
                let a: GroupAffine<P> = t.into();
                break P::x_bytes(&a.x);
            }
        }
    };
    let mut good_inf = good.clone();
    good_inf[P::NBYTES - 1] |= 0x40;
    Points { good, good_inf, nores, torsion, _p: std::marker::PhantomData }
}
fn cand<P: Curve>(k: &str, p: &Points<P>) -> Option<Vec<u8>> {
    let n = P::NBYTES - 1;
    let mut v = match k {
        "hasherr" => return None,
        "nores" => p.nores.clone(),
        "torsion" => p.torsion.clone(),
        // 2^377 - 1: not a field element
        "toobig" => {
            let mut v = vec![0xff; P::NBYTES];
            v[n] = 0x41;
            if P::NBYTES == 96 {
                v[47] = 0x01;
            }
            v
        }
        "inf" => {
            let mut v = vec![0; P::NBYTES];
            v[n] = 0x40;
            v
        }
        "xzero" => vec![0; P::NBYTES],
        "goodinfbit" => p.good_inf.clone(),
        _ => p.good.clone(),
    };
    // both places the sign can live in, always opposite, so that reading the wrong one shows
    match k {
        "goodpos" => v[n] |= 2,
        "goodneg" => v[n] |= 0x80,
        _ => (),
    }
    if !cfg!(feature = "compat") && (k == "goodpos" || k == "goodneg") {
        v[n] ^= 0x82;
    }
    Some(v)
}

fn record<P: Curve, H: Hasher<Error = BLSError>>(h: &H, mode: &str, domain: &[u8], msg: &[u8], extra: &[u8]) -> Value {
    let rec = Recording { inner: h, calls: RefCell::new(vec![]) };
    let r = guard(|| {
        if mode == "legacy" {
            let t = TryAndIncrement::<_, P>::new(&rec);
            let a = t.hash_with_attempt(domain, msg, extra);
            (a, None)
        } else {
            let t = TryAndIncrementCIP22::<_, P>::new(&rec);
            let a = t.hash_with_attempt_cip22(domain, msg, extra);
            (a, None::<()>)
        }
    })
    .map(|x| x.0);
    let calls = std::mem::take(&mut *rec.calls.borrow_mut());
    // the plain trait entry point agrees with the one that reports the attempt
    let plain = guard(|| {
        if mode == "legacy" {
            TryAndIncrement::<_, P>::new(&rec).hash(domain, msg, extra)
        } else {
            TryAndIncrementCIP22::<_, P>::new(&rec).hash(domain, msg, extra)
        }
    });
    let same = match (&r, &plain) {
        (Some(Ok((p, _))), Some(Ok(q))) => p == q,
        (Some(Err(a)), Some(Err(b))) => err_name(a) == err_name(b),
        (None, None) => true,
        _ => false,
    };
    let point = match &r {
        Some(Ok((p, _))) => Some(*p),
        _ => None,
    };
    let mut ptcall = 0usize;
    let mut ptpos = 0u8;
    let mut cs = vec![];
    for (i, c) in calls.iter().enumerate() {
        let (mut kind, mut b1, mut b7) = ("none", 0, 0);
        let ok = c.out.is_ok();
        let out = c.out.clone().unwrap_or_default();
        if !c.crh && out.len() >= P::NBYTES {
            let (k, refs) = classify::<P>(&out);
            kind = k;
            b1 = (out[P::NBYTES - 1] >> 1) & 1;
            b7 = out[P::NBYTES - 1] >> 7;
            if let (Some(p), Some(refs)) = (point, refs) {
                for s in 0..2 {
                    if refs[s] == p {
                        ptcall = i + 1;
                        ptpos = s as u8;
                    }
                }
            }
        }
        cs.push(json!({"fn": if c.crh {"crh"} else {"xof"}, "domain": c.domain, "input": c.input, "len": c.len, "ok": ok,
                       "err": c.out.as_ref().err().cloned().unwrap_or_default(),
                       "out": if c.crh { out.clone() } else { vec![] }, "kind": kind, "b1": b1, "b7": b7}));
    }
    let (st, err, attempt) = match &r {
        None => ("panic", String::new(), 0),
        Some(Err(e)) => ("err", err_name(e), 0),
        Some(Ok((_, a))) => ("ok", String::new(), *a),
    };
    let sub = point.map_or(true, |p| {
        let a: GroupAffine<P> = p.into();
        P::mul_r(&a).is_zero() && a.is_on_curve() && !a.is_zero()
    });
    json!({"op": "hash", "mode": mode, "curve": P::NAME, "domain": domain, "msg": msg, "extra": extra, "nbytes": P::NBYTES, "calls": cs,
           "st": if same { st } else { "entry points differ" }, "err": err, "attempt": attempt, "ptcall": ptcall, "ptpos": ptpos, "subgroup": sub})
}

fn decode<P: Curve>(bytes: &[u8]) -> Value {
    let n = P::NBYTES;
    let out = match guard(|| from_random_bytes::<P>(bytes)) {
        None => json!({"st": "panic"}),
        Some(None) => json!({"st": "none"}),
        Some(Some(p)) if p.is_zero() => json!({"st": "inf"}),
        Some(Some(p)) => json!({"st": "pt", "x": P::x_bytes(&p.x), "y": P::x_bytes(&p.y), "oncurve": p.is_on_curve()}),
    };
    let mut m = bytes.to_vec();
    for i in (47..n).step_by(48) {
        m[i] &= 1;
    }
    let exists = P::x_of(&m).map_or(false, |x| GroupAffine::<P>::get_point_from_x(x, true).is_some());
    json!({"op": "decode", "curve": P::NAME, "bytes": bytes, "exists": exists, "out": out})
}
fn decodes<P: Curve, R: Rng>(c: &mut Ctx, rng: &mut R) {
    let p = points::<P, _>(rng);
    let modulus = {
        let mut v = <Fq as PrimeField>::Params::MODULUS.to_bytes_le();
        v.resize(48, 0);
        v
    };
    let mut less = modulus.clone();
    less[0] = 0;
    let mut one = vec![0u8; 48];
    one[0] = 1;
    let mut top = vec![0xff; 48];
    top[47] = 1;
    let edges = [vec![0u8; 48], one, less, modulus, top];
    let mut xs = vec![p.good, p.nores, p.torsion];
    for a in &edges {
        if P::NBYTES == 48 {
            xs.push(a.clone());
        } else {
            for b in &edges {
                xs.push([a.clone(), b.clone()].concat());
            }
        }
    }
    for _ in 0..if c.thorough { 60 } else { 12 } {
        xs.push(P::x_bytes(&P::BaseField::rand(rng)));
    }
    for x in xs {
        for f in 0..4u8 {
            for noise in [0u8, 0x3e, rng.gen::<u8>() & 0x3e] {
                let mut v = x.clone();
                let n = P::NBYTES;
                v[n - 1] |= (f << 6) | noise;
                if n == 96 {
                    v[47] |= if noise == 0 { 0 } else { rng.gen::<u8>() & 0xfe };
                }
                c.emit(decode::<P>(&v));
            }
        }
    }
}

pub fn run(c: &mut Ctx) {
    let mut rng = c.rng(10);
    for b in 0..=255u8 {
        let e = match guard(|| YSignFlags::from_u8(b)) {
            Some(Some(f)) => {
                json!({"op": "flags", "byte": b, "pos": f.is_positive() == Some(true), "inf": f.is_infinity(), "back": f.u8_bitmask()})
            }
            _ => json!({"op": "flags", "byte": b, "pos": false, "inf": false, "back": -1}),
        };
        c.emit(e);
    }
    decodes::<g1::Parameters, _>(c, &mut rng);
    decodes::<g2::Parameters, _>(c, &mut rng);
    let only = std::env::var("H2C_MODE").unwrap_or_default();
    for n in (0..300).chain(vec![384, 511, 512, 513, 1000, 4096, 65535]) {
        let e = match guard(|| hash_length(n)) {
            Some(o) => json!({"op": "hlen", "n": n, "out": o}),
            None => json!({"op": "hlen", "n": n, "out": -1}),
        };
        c.emit(e);
    }
    let p1 = points::<g1::Parameters, _>(&mut rng);
    let p2 = points::<g2::Parameters, _>(&mut rng);
    for s in c.script.clone() {
        let mode = st(&s, "mode").to_string();
        if !only.is_empty() && only != mode {
            continue;
        }
        let mut msg = vec![0u8; us(&s, "msglen")];
        let mut extra = vec![0u8; us(&s, "extralen")];
        rng.fill_bytes(&mut msg);
        rng.fill_bytes(&mut extra);
        let kinds: Vec<String> = s["cands"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect();
        let g1c = st(&s, "curve") == "g1";
        let cands = kinds.iter().map(|k| if g1c { cand(k, &p1) } else { cand(k, &p2) }).collect();
        let m = Mock { legacy: mode == "legacy", cands, inputs: RefCell::new(vec![]) };
        let e = if g1c {
            record::<g1::Parameters, _>(&m, &mode, b"ULforxof", &msg, &extra)
        } else {
            record::<g2::Parameters, _>(&m, &mode, b"ULforxof", &msg, &extra)
        };
        c.emit(e);
    }
    // the real hashers
    let comp = CompositeHasher::<CRH>::new().unwrap();
    let n = if c.thorough { 400 } else { 60 };
    for i in 0..n {
        let mode = ["legacy", "cip22"][i % 2];
        if !only.is_empty() && only != mode {
            continue;
        }
        let mut msg = vec![0u8; rng.gen_range(0, 120)];
        let mut extra = vec![0u8; [0, 0, 1, 5, 40][rng.gen_range(0, 5)]];
        rng.fill_bytes(&mut msg);
        rng.fill_bytes(&mut extra);
        let mut d = [&b"ULforxof"[..], b"ULforpop", b"ULforout", b"", b"short"][rng.gen_range(0, 5)].to_vec();
        if i % 15 == 14 {
            d = b"toolongdomain".to_vec();
        }
        let e = match i % 4 {
            0 | 1 => record::<g1::Parameters, _>(&DirectHasher, mode, &d, &msg, &extra),
            _ if i % 12 < 10 => record::<g1::Parameters, _>(&comp, mode, &d, &msg, &extra),
            _ => record::<g2::Parameters, _>(&DirectHasher, mode, &d, &msg, &extra),
        };
        c.emit(e);
    }
}
