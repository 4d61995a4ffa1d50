//! Sessions with keys, signatures and batches: scripts of the model and structured attacks.
use crate::h2c::err_name;
use ark_bls12_377::{g1, Fr, G1Projective};
use ark_ff::{UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bls_crypto::{
    bls::Batch,
    hash_to_curve::{try_and_increment::TryAndIncrement, try_and_increment_cip22::TryAndIncrementCIP22, HashToCurve},
    hashers::{
        composite::{CompositeHasher, CRH},
        DirectHasher,
    },
    BLSError, PrivateKey, PublicKey, Signature,
};
use drvutil::*;
use rand::Rng;
use std::collections::HashSet;

fn fr(n: i64) -> Fr {
    let f = Fr::from(n.unsigned_abs());
    if n < 0 {
        -f
    } else {
        f
    }
}
fn res(r: Result<(), BLSError>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => err_name(&e),
    }
}
fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}
fn cls<T: PartialEq>(pool: &[T]) -> usize {
    let last = pool.last().unwrap();
    pool.iter().position(|x| x == last).unwrap() + 1
}

struct Exps {
    seen: HashSet<Vec<u64>>,
    n: usize,
    repeats: usize,
    too_few: usize,
    verifies: usize,
    ones: Vec<u64>,
    zeros: Vec<u64>,
}

fn session<H: HashToCurve<Output = G1Projective>>(ops: &[Value], h: &H, hname: &str, junk: G1Projective) -> Value {
    let mut sks: Vec<Option<PrivateKey>> = vec![];
    let mut pks: Vec<PublicKey> = vec![];
    let mut sigs: Vec<Signature> = vec![];
    let mut batch = Batch::default();
    let mut entries = 0;
    let mut x = Exps { seen: HashSet::new(), n: 0, repeats: 0, too_few: 0, verifies: 0, ones: vec![0; 6], zeros: vec![0; 6] };
    let mut out = vec![];
    for o in ops {
        let mut e = o.clone();
        let op = st(o, "op");
        let k = |f: &str| us(o, f) - 1;
        let many = |f: &str| ints(&o[f]).into_iter().map(|i| i as usize - 1).collect::<Vec<_>>();
        let (nk, ns) = (pks.len(), sigs.len());
        let r: Option<String> = match op {
            "newkey" => {
                let sk = PrivateKey::from(fr(o["sk"].as_i64().unwrap()));
                pks.push(sk.to_public());
                sks.push(Some(sk));
                None
            }
            "genkey" => {
                // a fresh random key; the formal integer in `sk` stands for it
                e["op"] = json!("newkey");
                let sk = PrivateKey::generate(&mut rand::thread_rng());
                pks.push(PublicKey::from(&sk));
                sks.push(Some(sk));
                None
            }
            "aggkeys" => {
                let p = PublicKey::aggregate(many("ks").into_iter().map(|i| &pks[i]));
                pks.push(p);
                sks.push(None);
                None
            }
            "combkeys" => {
                let exps: Vec<Fr> = ints(&o["exps"]).into_iter().map(fr).collect();
                match PublicKey::batch(&exps, many("ks").into_iter().map(|i| pks[i].clone())) {
                    Some(p) => {
                        pks.push(p);
                        sks.push(None);
                        Some("ok".into())
                    }
                    None => Some("none".into()),
                }
            }
            "serdekey" => {
                let p = pks[k("k")].clone();
                let mut b = vec![];
                p.serialize(&mut b).unwrap();
                // the point at infinity included
                pks.push(PublicKey::deserialize(&mut &b[..]).unwrap());
                let sk = sks[k("k")].clone();
                sks.push(sk.map(|s| {
                    let mut b = vec![];
                    s.serialize(&mut b).unwrap();
                    PrivateKey::deserialize(&mut &b[..]).unwrap()
                }));
                None
            }
            "sign" => {
                sigs.push(sks[k("k")].as_ref().unwrap().sign(&bytes(&o["msg"]), &bytes(&o["extra"]), h).unwrap());
                None
            }
            "signpop" => {
                sigs.push(sks[k("k")].as_ref().unwrap().sign_pop(&bytes(&o["msg"]), h).unwrap());
                None
            }
            "aggsigs" => {
                let s = Signature::aggregate(many("ss").into_iter().map(|i| &sigs[i]));
                sigs.push(s);
                None
            }
            "combsigs" => {
                let exps: Vec<Fr> = ints(&o["exps"]).into_iter().map(fr).collect();
                match Signature::batch(&exps, many("ss").into_iter().map(|i| sigs[i].clone())) {
                    Some(p) => {
                        sigs.push(p);
                        Some("ok".into())
                    }
                    None => Some("none".into()),
                }
            }
            "tamper" => {
                let mut p = *sigs[k("s")].as_ref();
                let n = o["n"].as_i64().unwrap();
                for _ in 0..n.abs() {
                    p += if n < 0 { -junk } else { junk };
                }
                sigs.push(Signature::from(p));
                None
            }
            "serdesig" => {
                let mut b = vec![];
                sigs[k("s")].serialize(&mut b).unwrap();
                sigs.push(Signature::deserialize(&mut &b[..]).unwrap());
                None
            }
            "verify" => Some(res(pks[k("k")].verify(&bytes(&o["msg"]), &bytes(&o["extra"]), &sigs[k("s")], h))),
            "verifypop" => Some(res(pks[k("k")].verify_pop(&bytes(&o["msg"]), &sigs[k("s")], h))),
            "multi" => {
                let ks: Vec<&PublicKey> = many("ks").into_iter().map(|i| &pks[i]).collect();
                let ms: Vec<(Vec<u8>, Vec<u8>)> =
                    o["msgs"].as_array().unwrap().iter().map(|m| (bytes(&m["msg"]), bytes(&m["extra"]))).collect();
                let refs: Vec<(&[u8], &[u8])> = ms.iter().map(|(a, b)| (&a[..], &b[..])).collect();
                let d = st(o, "domain").as_bytes();
                let a = res(sigs[k("s")].batch_verify(&ks, d, &refs, h));
                let hashes: Vec<G1Projective> = ms.iter().map(|(m, x)| h.hash(d, m, x).unwrap()).collect();
                let b = res(sigs[k("s")].batch_verify_hashes(&ks, &hashes));
                Some(if a == b { a } else { format!("batch_verify {} but batch_verify_hashes {}", a, b) })
            }
            "bnew" => {
                batch = Batch::new(&bytes(&o["msg"]), &bytes(&o["extra"]));
                entries = 0;
                None
            }
            "badd" => {
                batch.add(pks[k("k")].clone(), sigs[k("s")].clone());
                entries += 1;
                None
            }
            "bverify" => {
                arkshim::probe::msm_start();
                let r = res(batch.verify(h));
                let used = arkshim::probe::msm_take();
                x.verifies += 1;
                let mut this: HashSet<Vec<u64>> = HashSet::new();
                // the weights of one multiplication over the whole batch differ from each other
                for call in &used {
                    let mut c: Vec<&Vec<u64>> = call.iter().filter(|s| s.iter().any(|w| *w != 0)).collect();
                    let all = c.len();
                    c.sort();
                    c.dedup();
                    x.repeats += all - c.len();
                }
                for mut s in used.into_iter().flatten() {
                    while s.last() == Some(&0) {
                        s.pop();
                    }
                    if s != [1] {
                        this.insert(s);
                    }
                }
                if !this.is_empty() && this.len() + 1 < entries {
                    x.too_few += 1;
                }
                for s in this {
                    x.n += 1;
                    for w in 0..6 {
                        let v = s.get(w).copied().unwrap_or(0);
                        x.ones[w] |= v;
                        x.zeros[w] |= !v;
                    }
                    if !x.seen.insert(s) {
                        x.repeats += 1;
                    }
                }
                Some(r)
            }
            "beach" => Some(res(batch.verify_each(h))),
            "exps" => {
                e["verifies"] = json!(x.verifies);
                e["n"] = json!(x.n);
                e["repeats"] = json!(x.repeats);
                e["tooFew"] = json!(x.too_few);
                e["varied"] = json!((0..6).map(|w| (x.ones[w] & x.zeros[w]).count_ones()).sum::<u32>());
                None
            }
            other => panic!("op {}", other),
        };
        if let Some(r) = r {
            e["res"] = json!(r);
        }
        e["cls"] = json!(if pks.len() > nk {
            cls(&pks)
        } else if sigs.len() > ns {
            cls(&sigs)
        } else {
            0
        });
        out.push(e);
    }
    json!({"hasher": hname, "ops": out})
}

fn guarded<H: HashToCurve<Output = G1Projective>>(ops: &[Value], h: &H, hname: &str, junk: G1Projective) -> Value {
    // a panic inside is no outcome the specification knows
    guard(|| session(ops, h, hname, junk)).unwrap_or_else(|| {
        let mut o = ops.to_vec();
        o.push(json!({"op": "panic"}));
        for e in o.iter_mut() {
            e["cls"] = json!(-1);
            e["res"] = json!("panic");
        }
        json!({"hasher": hname, "ops": o, "panic": true})
    })
}

/// sessions the random walk is unlikely to find
pub fn structured<R: Rng>(rng: &mut R, thorough: bool, fam: &str) -> Vec<Vec<Value>> {
    let mut all: Vec<(&str, Vec<Value>)> = vec![];
    let msg = |rng: &mut R| -> Vec<u8> {
        let n = match rng.gen_range(0, 6) {
            0 => 0,
            1 => rng.gen_range(40, 200),
            _ => rng.gen_range(0, 40),
        };
        (0..n).map(|_| rng.gen()).collect()
    };
    let seq = |n: usize| (1..=n).collect::<Vec<_>>();
    // committees
    for n in [1usize, 2, 3, 5, 9, 17] {
        let (m, x) = (msg(rng), msg(rng));
        let mut o = vec![];
        for i in 0..n {
            o.push(json!({"op": if i % 5 == 3 {"genkey"} else {"newkey"}, "sk": if i % 5 == 3 { 1000003 * (i as i64 + 1) } else { rng.gen_range(1, 10000) }}));
            o.push(json!({"op": "sign", "k": i + 1, "msg": m, "extra": x}));
        }
        o.push(json!({"op": "aggkeys", "ks": seq(n)}));
        o.push(json!({"op": "aggsigs", "ss": seq(n)}));
        o.push(json!({"op": "verify", "k": n + 1, "msg": m, "extra": x, "s": n + 1}));
        o.push(json!({"op": "aggkeys", "ks": seq(n - 1)}));
        o.push(json!({"op": "verify", "k": n + 2, "msg": m, "extra": x, "s": n + 1}));
        o.push(json!({"op": "aggsigs", "ss": seq(n - 1)}));
        o.push(json!({"op": "verify", "k": n + 2, "msg": m, "extra": x, "s": n + 2}));
        o.push(json!({"op": "verify", "k": n + 1, "msg": m, "extra": x, "s": n + 2}));
        o.push(json!({"op": "verifypop", "k": n + 1, "msg": m, "s": n + 1}));
        let mut m2 = m.clone();
        m2.push(0);
        o.push(json!({"op": "verify", "k": n + 1, "msg": m2, "extra": x, "s": n + 1}));
        // doubled members
        let mut d = seq(n);
        d.push(1);
        o.push(json!({"op": "aggkeys", "ks": d}));
        o.push(json!({"op": "aggsigs", "ss": d}));
        o.push(json!({"op": "verify", "k": n + 3, "msg": m, "extra": x, "s": n + 3}));
        o.push(json!({"op": "verify", "k": n + 1, "msg": m, "extra": x, "s": n + 3}));
        all.push(("agg", o));
    }
    // batches whose errors cancel, for every pair of positions
    for n in [2usize, 3, 4] {
        for a in 0..n {
            for b in 0..n {
                if a == b {
                    continue;
                }
                let (m, x) = (msg(rng), msg(rng));
                let mut o = vec![];
                for i in 0..n {
                    o.push(json!({"op": "newkey", "sk": rng.gen_range(1, 10000)}));
                    o.push(json!({"op": "sign", "k": i + 1, "msg": m, "extra": x}));
                }
                let mut ss = seq(n);
                if a < b {
                    o.push(json!({"op": "tamper", "s": a + 1, "n": 1}));
                    o.push(json!({"op": "tamper", "s": b + 1, "n": -1}));
                    ss[a] = n + 1;
                    ss[b] = n + 2;
                } else {
                    // two valid signatures exchanged
                    ss.swap(a, b);
                }
                let mut g = o.clone();
                g.push(json!({"op": "aggkeys", "ks": seq(n)}));
                g.push(json!({"op": "aggsigs", "ss": ss}));
                g.push(json!({"op": "verify", "k": n + 1, "msg": m, "extra": x, "s": if a < b { n + 3 } else { n + 1 }}));
                all.push(("agg", g));
                o.push(json!({"op": "bnew", "msg": m, "extra": x}));
                for i in 0..n {
                    o.push(json!({"op": "badd", "k": i + 1, "s": ss[i]}));
                }
                o.push(json!({"op": "bverify"}));
                o.push(json!({"op": "beach"}));
                all.push(("batch", o));
            }
        }
    }
    // longer than any block, and than a byte counts
    let long = if thorough { 700usize } else { 300 };
    {
        let ms: Vec<(Vec<u8>, Vec<u8>)> = (0..5).map(|i| (vec![i as u8; 3], msg(rng))).collect();
        let mut o = vec![];
        for k in 0..3 {
            o.push(json!({"op": "newkey", "sk": 2 * k + 5}));
        }
        for k in 0..3 {
            for m in &ms {
                o.push(json!({"op": "sign", "k": k + 1, "msg": m.0, "extra": m.1}));
            }
        }
        let start = o.clone();
        let ks: Vec<usize> = (0..long).map(|i| i % 3 + 1).collect();
        let of = |i: usize| (i % 3) * 5 + i % 5 + 1;
        let ss: Vec<usize> = (0..long).map(of).collect();
        let list: Vec<Value> = (0..long).map(|i| json!({"msg": ms[i % 5].0, "extra": ms[i % 5].1})).collect();
        o.push(json!({"op": "aggsigs", "ss": ss}));
        let multi = |s: usize, ks: &[usize], l: &[Value]| json!({"op": "multi", "s": s, "ks": ks, "domain": "ULforxof", "msgs": l});
        o.push(multi(16, &ks, &list));
        for at in [long - 1, 256, 31] {
            let mut k2 = ks.clone();
            k2[at] = k2[at] % 3 + 1;
            o.push(multi(16, &k2, &list));
        }
        o.push(multi(16, &ks[..long - 1], &list[..long - 1]));
        o.push(json!({"op": "aggsigs", "ss": ss[..256]}));
        o.push(multi(17, &ks[..256], &list[..256]));
        o.push(multi(17, &ks, &list));
        // one message
        let one: Vec<usize> = (0..long).map(|i| (i % 3) * 5 + 1).collect();
        o.push(json!({"op": "aggkeys", "ks": ks}));
        o.push(json!({"op": "aggsigs", "ss": one}));
        o.push(json!({"op": "verify", "k": 4, "msg": ms[0].0, "extra": ms[0].1, "s": 18}));
        o.push(json!({"op": "aggkeys", "ks": ks[..256]}));
        o.push(json!({"op": "verify", "k": 5, "msg": ms[0].0, "extra": ms[0].1, "s": 18}));
        let exps: Vec<i64> = (0..long as i64).map(|i| i % 7 - 3).collect();
        o.push(json!({"op": "combkeys", "exps": exps, "ks": ks}));
        o.push(json!({"op": "combsigs", "exps": exps, "ss": one}));
        o.push(json!({"op": "verify", "k": 6, "msg": ms[0].0, "extra": ms[0].1, "s": 19}));
        all.push(("agg", o));
        let mut o = start;
        o.push(json!({"op": "tamper", "s": 1, "n": 1}));
        o.push(json!({"op": "tamper", "s": 1, "n": -1}));
        for bad in [vec![], vec![(long - 1, 16)], vec![(0, 16), (256, 17)], vec![(255, 16), (256, 17)], vec![(32, 2)]] {
            let mut s2 = one.clone();
            let mut k2 = ks.clone();
            for (at, s) in &bad {
                s2[*at] = *s;
                k2[*at] = 1;
            }
            o.push(json!({"op": "bnew", "msg": ms[0].0, "extra": ms[0].1}));
            for i in 0..long {
                o.push(json!({"op": "badd", "k": k2[i], "s": s2[i]}));
            }
            o.push(json!({"op": "bverify"}));
            if bad.len() < 2 {
                o.push(json!({"op": "beach"}));
            }
        }
        all.push(("batch", o));
    }
    // errors that cancel if the weights of two or three entries are related, for entries of one key
    // and of several
    let attacks = [
        (vec![1usize, 1], vec![1i64, -1]),
        (vec![1, 1], vec![2, -1]),
        (vec![1, 2], vec![2, -1]),
        (vec![1, 2], vec![1, 1]),
        (vec![1, 1, 1], vec![0, 1, -1]),
        (vec![1, 2, 1], vec![1, 0, -1]),
        (vec![1, 2, 1], vec![1, -2, 1]),
        (vec![1, 1, 1], vec![1, -2, 1]),
        (vec![1, 2, 3], vec![1, -2, 1]),
        (vec![1, 2, 3], vec![1, 1, -1]),
        (vec![1, 2, 3, 4, 5, 6, 7, 8, 9], vec![1, 0, 0, 0, 0, 0, 0, 0, -1]),
        (vec![1, 2, 3, 4, 5, 6, 7, 8, 9], vec![0, 1, 0, 0, 0, 0, 0, -1, 0]),
        ((1..=34).collect(), (0..34).map(|i| if i == 0 { 1 } else if i == 32 { -1 } else { 0 }).collect()),
        ((1..=34).collect(), (0..34).map(|i| if i == 15 { 1 } else if i == 31 { -1 } else { 0 }).collect()),
        (vec![1, 1], vec![0, 0]),
        (vec![1, 2, 1, 2, 1], vec![0; 5]),
    ];
    let shapes: Vec<Option<(usize, usize)>> = vec![None, Some((0, 0)), Some((0, 9)), Some((9, 0)), Some((130, 130))];
    for (shape, (keys, coefs)) in shapes.iter().flat_map(|s| {
        let all = if s.is_none() { usize::MAX } else { 7 };
        attacks.iter().take(all).map(move |a| (*s, a.clone()))
    }) {
        let (m, x) = match shape {
            None => (msg(rng), msg(rng)),
            Some((a, b)) => ((0..a).map(|_| rng.gen()).collect(), (0..b).map(|_| rng.gen()).collect::<Vec<u8>>()),
        };
        let nk = *keys.iter().max().unwrap();
        let mut o = vec![];
        for i in 0..nk {
            o.push(json!({"op": "newkey", "sk": rng.gen_range(1, 10000)}));
            o.push(json!({"op": "sign", "k": i + 1, "msg": m, "extra": x}));
        }
        let mut ss = vec![];
        let mut n = nk;
        for (k, c) in keys.iter().zip(&coefs) {
            if *c == 0 {
                ss.push(*k);
            } else {
                n += 1;
                o.push(json!({"op": "tamper", "s": k, "n": c}));
                ss.push(n);
            }
        }
        o.push(json!({"op": "bnew", "msg": m, "extra": x}));
        for (k, s) in keys.iter().zip(&ss) {
            o.push(json!({"op": "badd", "k": k, "s": s}));
        }
        for _ in 0..3 {
            o.push(json!({"op": "bverify"}));
        }
        o.push(json!({"op": "beach"}));
        o.push(json!({"op": "exps"}));
        all.push(("batch", o));
    }
    // one bad entry at every position
    for n in [1usize, 2, 5] {
        for bad in 0..=n {
            let (m, x) = (msg(rng), msg(rng));
            let mut o = vec![];
            for i in 0..n {
                o.push(json!({"op": "newkey", "sk": rng.gen_range(1, 10000)}));
                if i == bad && n == 5 {
                    o.push(json!({"op": "signpop", "k": i + 1, "msg": m}));
                } else {
                    o.push(json!({"op": "sign", "k": i + 1, "msg": m, "extra": x}));
                }
            }
            let mut ss = seq(n);
            if bad < n && n < 5 {
                o.push(json!({"op": "tamper", "s": bad + 1, "n": 1}));
                ss[bad] = n + 1;
            }
            o.push(json!({"op": "bnew", "msg": m, "extra": x}));
            for i in 0..n {
                o.push(json!({"op": "badd", "k": i + 1, "s": ss[i]}));
            }
            o.push(json!({"op": "bverify"}));
            o.push(json!({"op": "beach"}));
            all.push(("batch", o));
        }
    }
    // exponents: many verifications of one batch, and big batches
    for (n, reps) in [(4usize, 24usize), (2, 40), (33, 3), (if thorough { 300 } else { 70 }, 1)] {
        let (m, x) = (msg(rng), msg(rng));
        let mut o = vec![];
        for i in 0..n {
            o.push(json!({"op": "newkey", "sk": rng.gen_range(1, 100000)}));
            o.push(json!({"op": "sign", "k": i + 1, "msg": m, "extra": x}));
        }
        o.push(json!({"op": "bnew", "msg": m, "extra": x}));
        for i in 0..n {
            o.push(json!({"op": "badd", "k": i + 1, "s": i + 1}));
        }
        for _ in 0..reps {
            o.push(json!({"op": "bverify"}));
        }
        o.push(json!({"op": "exps"}));
        o.push(json!({"op": "newkey", "sk": 5}));
        o.push(json!({"op": "badd", "k": n + 1, "s": 1}));
        o.push(json!({"op": "bverify"}));
        all.push(("batch", o));
    }
    // proofs of possession and signatures never stand for one another
    for _ in 0..4 {
        let (m, x) = (msg(rng), msg(rng));
        let mut o = vec![json!({"op": "genkey", "sk": 1000003}), json!({"op": "newkey", "sk": 2}), json!({"op": "newkey", "sk": 0})];
        for k in 1..=3 {
            o.push(json!({"op": "sign", "k": k, "msg": m, "extra": Vec::<u8>::new()}));
            o.push(json!({"op": "signpop", "k": k, "msg": m}));
            o.push(json!({"op": "sign", "k": k, "msg": m, "extra": x}));
            o.push(json!({"op": "sign", "k": k, "msg": x, "extra": m}));
        }
        for k in 1..=3 {
            for s in 1..=12 {
                o.push(json!({"op": "verifypop", "k": k, "msg": m, "s": s}));
                o.push(json!({"op": "verify", "k": k, "msg": m, "extra": Vec::<u8>::new(), "s": s}));
                o.push(json!({"op": "verify", "k": k, "msg": m, "extra": x, "s": s}));
            }
        }
        all.push(("sig", o));
    }
    // one aggregate over several (key, message) pairs, complete, permuted, short, and in both domains
    for n in [1usize, 2, 4, 8] {
        let ms: Vec<(Vec<u8>, Vec<u8>)> = (0..n).map(|_| (msg(rng), msg(rng))).collect();
        let mut o = vec![];
        for i in 0..n {
            o.push(json!({"op": "newkey", "sk": rng.gen_range(1, 10000)}));
            o.push(json!({"op": "sign", "k": i + 1, "msg": ms[i].0, "extra": ms[i].1}));
        }
        o.push(json!({"op": "aggsigs", "ss": seq(n)}));
        let recs: Vec<Value> = ms.iter().map(|m| json!({"msg": m.0, "extra": m.1})).collect();
        let mut rev = recs.clone();
        rev.reverse();
        let rk: Vec<usize> = (1..=n).rev().collect();
        for (ks, ms, d) in [
            (seq(n), &recs[..], "ULforxof"),
            (rk.clone(), &rev[..], "ULforxof"),
            (rk, &recs[..], "ULforxof"),
            (seq(n), &recs[..], "ULforpop"),
            (seq(n), &recs[..n - 1], "ULforxof"),
            (seq(n - 1), &recs[..], "ULforxof"),
            (seq(n - 1), &recs[..n - 1], "ULforxof"),
            (vec![], &recs[..0], "ULforxof"),
        ] {
            o.push(json!({"op": "multi", "s": n + 1, "ks": ks, "domain": d, "msgs": ms}));
        }
        o.push(json!({"op": "aggsigs", "ss": Vec::<usize>::new()}));
        o.push(json!({"op": "multi", "s": n + 2, "ks": Vec::<usize>::new(), "domain": "ULforxof", "msgs": []}));
        all.push(("agg", o));
    }
    // an empty batch, and the zero key with the zero signature
    all.push(("batch", vec![
        json!({"op": "bnew", "msg": [1], "extra": []}),
        json!({"op": "bverify"}),
        json!({"op": "beach"}),
        json!({"op": "newkey", "sk": 0}),
        json!({"op": "sign", "k": 1, "msg": [9], "extra": []}),
        json!({"op": "badd", "k": 1, "s": 1}),
        json!({"op": "bverify"}),
        json!({"op": "beach"}),
    ]));
    all.push(("sig", vec![
        json!({"op": "newkey", "sk": 0}),
        json!({"op": "sign", "k": 1, "msg": [9], "extra": []}),
        json!({"op": "verify", "k": 1, "msg": [1], "extra": [], "s": 1}),
        json!({"op": "newkey", "sk": 7}),
        json!({"op": "newkey", "sk": -7}),
        json!({"op": "sign", "k": 2, "msg": [9], "extra": []}),
        json!({"op": "sign", "k": 3, "msg": [9], "extra": []}),
        json!({"op": "verify", "k": 3, "msg": [9], "extra": [], "s": 2}),
        json!({"op": "verify", "k": 3, "msg": [9], "extra": [], "s": 3}),
        json!({"op": "verify", "k": 2, "msg": [1], "extra": [], "s": 1}),
    ]));
    all.push(("agg", vec![
        json!({"op": "newkey", "sk": 7}),
        json!({"op": "newkey", "sk": -7}),
        json!({"op": "sign", "k": 1, "msg": [9], "extra": []}),
        json!({"op": "sign", "k": 2, "msg": [9], "extra": []}),
        json!({"op": "aggkeys", "ks": [1, 2]}),
        json!({"op": "aggsigs", "ss": [1, 2]}),
        json!({"op": "verify", "k": 3, "msg": [1], "extra": [], "s": 3}),
        json!({"op": "verify", "k": 3, "msg": [1], "extra": [], "s": 1}),
    ]));
    // messages of many lengths
    for n in [0usize, 1, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 200, 1000] {
        let (m, x): (Vec<u8>, Vec<u8>) = ((0..n).map(|_| rng.gen()).collect(), msg(rng));
        let mut o = vec![json!({"op": "genkey", "sk": 1000003}), json!({"op": "sign", "k": 1, "msg": m, "extra": x}), json!({"op": "signpop", "k": 1, "msg": m})];
        o.push(json!({"op": "verify", "k": 1, "msg": m, "extra": x, "s": 1}));
        o.push(json!({"op": "verifypop", "k": 1, "msg": m, "s": 2}));
        for i in [0, n / 2, n - n.min(1)] {
            if n > 0 {
                let mut m2 = m.clone();
                m2[i] ^= 1 << rng.gen_range(0, 8);
                o.push(json!({"op": "verify", "k": 1, "msg": m2, "extra": x, "s": 1}));
                o.push(json!({"op": "verifypop", "k": 1, "msg": m2, "s": 2}));
            }
        }
        let mut m3 = m.clone();
        m3.push(0);
        o.push(json!({"op": "verify", "k": 1, "msg": m3, "extra": x, "s": 1}));
        o.push(json!({"op": "verifypop", "k": 1, "msg": m3, "s": 2}));
        if n > 0 {
            o.push(json!({"op": "verify", "k": 1, "msg": m[..n - 1].to_vec(), "extra": x, "s": 1}));
            o.push(json!({"op": "verifypop", "k": 1, "msg": m[..n - 1].to_vec(), "s": 2}));
        }
        let mut x2 = x.clone();
        x2.push(1);
        o.push(json!({"op": "verify", "k": 1, "msg": m, "extra": x2, "s": 1}));
        all.push(("sig", o));
    }
    all.into_iter().filter(|a| a.0 == fam).map(|a| a.1).collect()
}

pub fn run(c: &mut Ctx) {
    let mut rng = c.rng(20);
    let fam = std::env::var("BLS_FAM").expect("BLS_FAM");
    let legacy = std::env::var("BLS_HASHERS").expect("BLS_HASHERS") == "legacy";
    let comp = CompositeHasher::<CRH>::new().unwrap();
    let direct = DirectHasher;
    let mut scripts: Vec<Vec<Value>> = c.script.iter().map(|s| s.as_array().unwrap().clone()).collect();
    scripts.extend(structured(&mut rng, c.thorough, &fam));
    let junk = loop {
        let j = G1Projective::rand(&mut rng);
        if !j.is_zero() {
            break j;
        }
    };
    let ld = TryAndIncrement::<_, g1::Parameters>::new(&direct);
    let lc = TryAndIncrement::<_, g1::Parameters>::new(&comp);
    let cd = TryAndIncrementCIP22::<_, g1::Parameters>::new(&direct);
    let cc = TryAndIncrementCIP22::<_, g1::Parameters>::new(&comp);
    let evs = par_map(&scripts, |i, s| match (legacy, i % 3) {
        (true, 0) => guarded(s, &lc, "composite", junk),
        (true, _) => guarded(s, &ld, "direct", junk),
        (_, 0) => guarded(s, &cc, "cip22 composite", junk),
        (_, _) => guarded(s, &cd, "cip22 direct", junk),
    });
    for e in evs {
        c.emit(e);
    }
}
