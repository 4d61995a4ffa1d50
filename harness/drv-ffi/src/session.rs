//! Sessions of a foreign caller: handles, buffers, flags
use crate::alloc::*;
use arkshim::curves::bls12_377::{Fq, Fr, G1Affine, G1Projective};
use arkshim::ec::{AffineCurve, ProjectiveCurve};
use arkshim::ff::*;
use bls_crypto::hash_to_curve::{try_and_increment::DIRECT_HASH_TO_G1, try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22};
use bls_crypto::hashers::{DirectHasher, COMPOSITE_HASHER};
use bls_crypto::{Hasher, PrivateKey, PublicKey, Signature, POP_DOMAIN, SIG_DOMAIN};
use bls_snark_sys::{serialization::*, signatures::*, utils::*};
use drvutil::*;
use std::os::raw::c_int;
use std::sync::atomic::Ordering::SeqCst;

fn fr(n: i64) -> Fr {
    let f = Fr::from(n.unsigned_abs());
    if n < 0 {
        -f
    } else {
        f
    }
}
enum Cell {
    Sk(*mut PrivateKey),
    Pk(*mut PublicKey),
    Sig(*mut Signature),
    Buf(*mut u8, c_int),
    Gone,
}
enum Was {
    Sk,
    Pk(PublicKey),
    Sig(Signature),
    Buf(Vec<u8>),
}
/// no pointer the library would hand out
pub fn unset<T>() -> *mut T {
    0x10 as *mut T
}
pub fn arg(v: &[u8], null: bool) -> (*const u8, c_int) {
    if v.is_empty() && null {
        (std::ptr::null(), 0)
    } else {
        (v.as_ptr(), v.len() as c_int)
    }
}
fn vecarg<T>(v: &[T], null: bool) -> *const T {
    if v.is_empty() && null {
        std::ptr::null()
    } else {
        v.as_ptr()
    }
}
pub fn taken(p: *const u8, n: c_int) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(p, n as usize) }.to_vec()
}
fn coord(b: &[u8]) -> Fq {
    Fq::read(b).unwrap()
}
/// the point in the layout the hash functions answer in
fn hash_point(b: &[u8]) -> Option<G1Projective> {
    match b.len() {
        97 => Some(G1Affine::new(coord(&b[..48]), coord(&b[48..96]), b[96] == 1).into_projective()),
        144 => Some(G1Projective::new(coord(&b[..48]), coord(&b[48..96]), coord(&b[96..]))),
        _ => None,
    }
}
struct Heap {
    cells: Vec<Cell>,
    was: Vec<Was>,
}
impl Heap {
    fn sk(&self, i: i64) -> *mut PrivateKey {
        match self.cells[i as usize - 1] {
            Cell::Sk(p) => p,
            _ => panic!("cell {} holds no secret key", i),
        }
    }
    fn pk(&self, i: i64) -> *mut PublicKey {
        match self.cells[i as usize - 1] {
            Cell::Pk(p) => p,
            _ => panic!("cell {} holds no public key", i),
        }
    }
    fn sig(&self, i: i64) -> *mut Signature {
        match self.cells[i as usize - 1] {
            Cell::Sig(p) => p,
            _ => panic!("cell {} holds no signature", i),
        }
    }
    fn buf(&self, i: i64) -> (*mut u8, c_int) {
        match self.cells[i as usize - 1] {
            Cell::Buf(p, n) => (p, n),
            _ => panic!("cell {} holds no buffer", i),
        }
    }
    fn destroy(&mut self, i: usize) -> bool {
        let c = std::mem::replace(&mut self.cells[i], Cell::Gone);
        unsafe {
            match c {
                Cell::Sk(p) => call(|| destroy_private_key(p)),
                Cell::Pk(p) => call(|| destroy_public_key(p)),
                Cell::Sig(p) => call(|| destroy_signature(p)),
                Cell::Buf(p, n) => call(|| free_vec(p, n)),
                Cell::Gone => panic!("cell {} is gone", i + 1),
            }
        }
    }
}
fn int(o: &Value, k: &str) -> i64 {
    o[k].as_i64().unwrap_or_else(|| panic!("field {} in {}", k, o))
}
fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}
fn flag(o: &Value, k: &str) -> bool {
    o[k].as_bool().unwrap_or_else(|| panic!("field {} in {}", k, o))
}

/// one operation; answers are added to e
fn step(h: &mut Heap, o: &Value, null: bool, e: &mut Value) -> Option<(Cell, Was)> {
    let op = st(o, "op");
    let (msg, extra) = (bytes_or(&o["msg"]), bytes_or(&o["extra"]));
    let ((mp, ml), (xp, xl)) = (arg(&msg, null), arg(&extra, null));
    let mode = || (flag(o, "comp"), flag(o, "cip"));
    let mut pk: *mut PublicKey = unset();
    let mut sk: *mut PrivateKey = unset();
    let mut sig: *mut Signature = unset();
    let mut buf: *mut u8 = unset();
    let mut len: c_int = -7;
    // a verdict not given stays what it was
    let mut seen = [2u8; 16];
    let verdict = seen.as_mut_ptr() as *mut bool;
    let ret = match op {
        "newkey" => {
            let mut b = vec![];
            fr(int(o, "sk")).write(&mut b).unwrap();
            call(|| deserialize_private_key(b.as_ptr(), b.len() as c_int, &mut sk))
        }
        "genkey" => unsafe { call(|| generate_private_key(&mut sk)) },
        "topub" => {
            let k = h.sk(int(o, "o"));
            call(|| private_key_to_public_key(k, &mut pk))
        }
        "sign" => {
            let (k, (c, x)) = (h.sk(int(o, "k")), mode());
            call(|| sign_message(k, mp, ml, xp, xl, c, x, &mut sig))
        }
        "signpop" => {
            let k = h.sk(int(o, "k"));
            call(|| sign_pop(k, mp, ml, &mut sig))
        }
        "verify" => {
            let (k, s, (c, x)) = (h.pk(int(o, "k")), h.sig(int(o, "s")), mode());
            call(|| verify_signature(k, mp, ml, xp, xl, s, c, x, verdict))
        }
        "verifypop" => {
            let (k, s) = (h.pk(int(o, "k")), h.sig(int(o, "s")));
            call(|| verify_pop(k, mp, ml, s, verdict))
        }
        "bvsig" => {
            let data: Vec<(Vec<u8>, Vec<u8>)> = list(&o["items"]).iter().map(|m| (bytes(&m["msg"]), bytes(&m["extra"]))).collect();
            let ms: Vec<MessageFFI> = list(&o["items"])
                .iter()
                .zip(&data)
                .map(|(m, d)| {
                    if !null {
                        // as a Rust caller makes them
                        let (public_key, sig) = unsafe { (&*h.pk(int(m, "k")), &*h.sig(int(m, "s"))) };
                        return call(|| MessageFFI::from(&Message { data: &d.0, extra: &d.1, public_key, sig }));
                    }
                    let ((a, al), (b, bl)) = (arg(&d.0, null), arg(&d.1, null));
                    MessageFFI { data: Buffer { ptr: a, len: al as usize }, extra: Buffer { ptr: b, len: bl as usize }, public_key: h.pk(int(m, "k")), sig: h.sig(int(m, "s")) }
                })
                .collect();
            let (c, x) = mode();
            call(|| batch_verify_signature(vecarg(&ms, null), ms.len(), c, x, verdict))
        }
        "bvstrict" => {
            let b = list(&o["batches"]);
            let data: Vec<(Vec<u8>, Vec<u8>)> = b.iter().map(|m| (bytes(&m["msg"]), bytes(&m["extra"]))).collect();
            let ks: Vec<Vec<*const PublicKey>> = b.iter().map(|m| ints(&m["ks"]).iter().map(|k| h.pk(*k) as *const _).collect()).collect();
            let ss: Vec<Vec<*const Signature>> = b.iter().map(|m| ints(&m["ss"]).iter().map(|s| h.sig(*s) as *const _).collect()).collect();
            let ms: Vec<BatchMessageFFI> = (0..b.len())
                .map(|i| {
                    let ((a, al), (b, bl)) = (arg(&data[i].0, null), arg(&data[i].1, null));
                    BatchMessageFFI {
                        data: Buffer { ptr: a, len: al as usize },
                        extra: Buffer { ptr: b, len: bl as usize },
                        public_keys: vecarg(&ks[i], null),
                        public_keys_len: ks[i].len(),
                        signatures: vecarg(&ss[i], null),
                        signatures_len: ss[i].len(),
                    }
                })
                .collect();
            let (c, x) = mode();
            // the verdicts are where a caller has booleans
            let mut out = vec![false; ms.len()];
            for (i, v) in out.iter_mut().enumerate() {
                *v = i % 2 == 0;
            }
            let p = if out.is_empty() && null { std::ptr::null_mut() } else { out.as_mut_ptr() };
            let r = call(|| batch_verify_strict(vecarg(&ms, null), ms.len(), c, x, p));
            e["each"] = json!(out);
            r
        }
        "aggkeys" | "subkeys" => {
            let ks: Vec<*const PublicKey> = ints(&o["ks"]).iter().map(|k| h.pk(*k) as *const _).collect();
            if op == "aggkeys" {
                call(|| aggregate_public_keys(vecarg(&ks, null), ks.len() as c_int, &mut pk))
            } else {
                let k = h.pk(int(o, "k"));
                call(|| aggregate_public_keys_subtract(k, vecarg(&ks, null), ks.len() as c_int, &mut pk))
            }
        }
        "aggsigs" => {
            let ss: Vec<*const Signature> = ints(&o["ss"]).iter().map(|s| h.sig(*s) as *const _).collect();
            call(|| aggregate_signatures(vecarg(&ss, null), ss.len() as c_int, &mut sig))
        }
        "tamper" => {
            let n = int(o, "n");
            let mut p = *unsafe { &*h.sig(int(o, "s")) }.as_ref();
            p += G1Projective::prime_subgroup_generator().mul(fr(1009 * n).into_repr());
            sig = call(|| Box::into_raw(Box::new(Signature::from(p))));
            true
        }
        "ser" => {
            let i = int(o, "o");
            let u = st(o, "form") == "u";
            match h.cells[i as usize - 1] {
                Cell::Sk(p) => call(|| serialize_private_key(p, &mut buf, &mut len)),
                Cell::Pk(p) if u => call(|| serialize_public_key_uncompressed(p, &mut buf, &mut len)),
                Cell::Pk(p) => call(|| serialize_public_key(p, &mut buf, &mut len)),
                Cell::Sig(p) if u => call(|| serialize_signature_uncompressed(p, &mut buf, &mut len)),
                Cell::Sig(p) => call(|| serialize_signature(p, &mut buf, &mut len)),
                _ => panic!("ser {}", i),
            }
        }
        "compress" => {
            let (p, n) = h.buf(int(o, "o"));
            if st(o, "kind") == "pk" {
                call(|| compress_pubkey(p, n, &mut buf, &mut len))
            } else {
                call(|| compress_signature(p, n, &mut buf, &mut len))
            }
        }
        "deser" => {
            let (p, n) = h.buf(int(o, "o"));
            match st(o, "kind") {
                "sk" => call(|| deserialize_private_key(p, n, &mut sk)),
                "sig" => call(|| deserialize_signature(p, n, &mut sig)),
                "pk" => call(|| deserialize_public_key(p, n, &mut pk)),
                _ => call(|| deserialize_public_key_cached(p, n, &mut pk)),
            }
        }
        "hash" => {
            let pop = flag(o, "pop");
            let d = if pop { POP_DOMAIN } else { SIG_DOMAIN };
            match st(o, "which") {
                "direct" => call(|| hash_direct(mp, ml, &mut buf, &mut len, pop)),
                "attempt" => {
                    let mut a: c_int = -1;
                    let r = call(|| hash_direct_with_attempt(mp, ml, &mut buf, &mut len, &mut a, pop));
                    e["attempt"] = json!(a);
                    e["refattempt"] = json!(DIRECT_HASH_TO_G1.hash_with_attempt(d, &msg, &[]).unwrap().1);
                    r
                }
                "composite" => call(|| hash_composite(mp, ml, xp, xl, &mut buf, &mut len)),
                _ => {
                    let mut a: u8 = 255;
                    let r = call(|| hash_composite_cip22(mp, ml, xp, xl, &mut buf, &mut len, &mut a));
                    e["attempt"] = json!(a);
                    e["refattempt"] = json!(COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(SIG_DOMAIN, &msg, &extra).unwrap().1);
                    r
                }
            }
        }
        "part" => {
            let n = int(o, "n");
            let (r, want) = if st(o, "which") == "crh" {
                (call(|| hash_crh(mp, ml, n as c_int, &mut buf, &mut len)), COMPOSITE_HASHER.crh(SIG_DOMAIN, &msg, n as usize).unwrap())
            } else {
                (call(|| hash_direct_first_step(mp, ml, n as c_int, &mut buf, &mut len)), DirectHasher.hash(SIG_DOMAIN, &msg, n as usize).unwrap())
            };
            e["matches"] = json!(r && len >= 0 && taken(buf, len) == want);
            r
        }
        "destroy" => h.destroy(int(o, "o") as usize - 1),
        "destroynull" => unsafe {
            match st(o, "kind") {
                "sk" => call(|| destroy_private_key(std::ptr::null_mut())),
                "pk" => call(|| destroy_public_key(std::ptr::null_mut())),
                "sig" => call(|| destroy_signature(std::ptr::null_mut())),
                _ => call(|| free_vec(std::ptr::null_mut(), 5)),
            }
        },
        other => panic!("op {}", other),
    };
    e["ret"] = json!(ret);
    e["verdict"] = json!(match (seen[0], seen[1..].iter().all(|b| *b == 2)) {
        (0, true) => "no",
        (1, true) => "yes",
        (2, true) => "unset",
        _ => "junk",
    });
    let set = [pk != unset(), sk != unset(), sig != unset(), buf != unset() || len != -7].iter().filter(|b| **b).count();
    e["made"] = json!(set);
    if pk != unset() {
        return Some((Cell::Pk(pk), Was::Pk(unsafe { (*pk).clone() })));
    }
    if sk != unset() {
        return Some((Cell::Sk(sk), Was::Sk));
    }
    if sig != unset() {
        return Some((Cell::Sig(sig), Was::Sig(unsafe { (*sig).clone() })));
    }
    if buf != unset() {
        let b = taken(buf, len);
        e["len"] = json!(len);
        if op == "hash" {
            let p = hash_point(&b);
            let i = p.and_then(|p| h.was.iter().position(|w| matches!(w, Was::Sig(s) if *s.as_ref() == p)));
            e["pcls"] = json!(if p.is_none() { -1 } else { i.map_or(0, |i| i as i64 + 1) });
        }
        return Some((Cell::Buf(buf, len), Was::Buf(b)));
    }
    None
}
fn bytes_or(v: &Value) -> Vec<u8> {
    if v.is_array() {
        bytes(v)
    } else {
        vec![]
    }
}
fn list(v: &Value) -> Vec<Value> {
    v.as_array().unwrap().clone()
}
fn cls(w: &[Was]) -> usize {
    let n = w.len() - 1;
    w.iter()
        .position(|v| match (v, &w[n]) {
            (Was::Pk(a), Was::Pk(b)) => a == b,
            (Was::Sig(a), Was::Sig(b)) => a == b,
            (Was::Buf(a), Was::Buf(b)) => a == b,
            _ => false,
        })
        .map_or(0, |i| i + 1)
}

pub fn warm() {
    let (m, mut s, mut sig) = ([1u8; 3], unset(), unset());
    bls_snark_sys::init();
    unsafe { generate_private_key(&mut s) };
    for (c, x) in &[(true, true), (true, false), (false, false)] {
        sign_message(s, m.as_ptr(), 3, m.as_ptr(), 3, *c, *x, &mut sig);
    }
    let mut b: *mut u8 = unset();
    let mut n = 0;
    hash_crh(m.as_ptr(), 3, 48, &mut b, &mut n);
}

pub fn session(ops: &[Value], nul: bool, shared: bool) -> Value {
    let mut h = Heap { cells: vec![], was: vec![] };
    HOLD.fetch_add(1, SeqCst);
    let (inside, bad) = (INSIDE.load(SeqCst), BAD.load(SeqCst));
    let mut out = vec![];
    for o in ops {
        let mut e = o.clone();
        if let Some((c, w)) = step(&mut h, o, nul, &mut e) {
            h.cells.push(c);
            h.was.push(w);
            e["cls"] = json!(cls(&h.was));
        } else {
            e["cls"] = json!(-1);
        }
        out.push(e);
    }
    // what is left is released, in some order
    let mut all = true;
    let n = h.cells.len();
    for i in (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }) {
        if !matches!(h.cells[i], Cell::Gone) {
            all &= h.destroy(i);
        }
    }
    out.push(json!({"op": "finish", "ret": all, "leaked": if shared { 0 } else { INSIDE.load(SeqCst) - inside }, "bad": BAD.load(SeqCst) - bad}));
    HOLD.fetch_sub(1, SeqCst);
    json!({"op": "session", "null": nul, "ops": out})
}
