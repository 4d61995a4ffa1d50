//! Scripts: the model's, and callers the model is unlikely to be.
use crate::session::*;
use drvutil::*;
use rand::Rng;

fn modes() -> Vec<(bool, bool)> {
    vec![(true, true), (true, false), (false, false), (false, true)]
}
/// several keys and signatures under every mode, then everything asked in every mode
fn matrix(rng: &mut impl Rng) -> Vec<Value> {
    let m: Vec<u8> = (0..rng.gen_range(0, 30)).map(|_| rng.gen()).collect();
    let x: Vec<u8> = (0..rng.gen_range(1, 30)).map(|_| rng.gen()).collect();
    let none = Vec::<u8>::new();
    let mut o = vec![json!({"op": "newkey", "sk": rng.gen_range(2, 10000)}), json!({"op": "topub", "o": 1})];
    let mut sigs = vec![];
    let mut n = 2;
    for (c, p) in modes() {
        for (a, b) in &[(&m, &x), (&m, &none), (&none, &m)] {
            o.push(json!({"op": "sign", "k": 1, "msg": a, "extra": b, "comp": c, "cip": p}));
            if (c, p) != (false, true) {
                n += 1;
                sigs.push(n);
            }
        }
    }
    o.push(json!({"op": "signpop", "k": 1, "msg": m}));
    n += 1;
    sigs.push(n);
    for s in &sigs {
        for (c, p) in modes() {
            for (a, b) in &[(&m, &x), (&m, &none), (&none, &m)] {
                o.push(json!({"op": "verify", "k": 2, "msg": a, "extra": b, "s": s, "comp": c, "cip": p}));
            }
        }
        o.push(json!({"op": "verifypop", "k": 2, "msg": m, "s": s}));
        o.push(json!({"op": "verifypop", "k": 2, "msg": none, "s": s}));
    }
    for w in &["direct", "attempt", "composite", "cip22"] {
        for p in &[true, false] {
            o.push(json!({"op": "hash", "which": w, "msg": m, "extra": x, "pop": p}));
        }
    }
    o
}
/// the secret scalar 1 signs the hash itself
fn hashes(rng: &mut impl Rng) -> Vec<Value> {
    let m: Vec<u8> = (0..rng.gen_range(0, 60)).map(|_| rng.gen()).collect();
    let x: Vec<u8> = (0..rng.gen_range(0, 60)).map(|_| rng.gen()).collect();
    let none = Vec::<u8>::new();
    let mut o = vec![json!({"op": "newkey", "sk": 1}), json!({"op": "signpop", "k": 1, "msg": m})];
    for (c, p) in modes() {
        o.push(json!({"op": "sign", "k": 1, "msg": m, "extra": x, "comp": c, "cip": p}));
        o.push(json!({"op": "sign", "k": 1, "msg": m, "extra": none, "comp": c, "cip": p}));
    }
    for w in &["direct", "attempt", "composite", "cip22"] {
        for p in &[true, false] {
            for e in &[&none, &x] {
                o.push(json!({"op": "hash", "which": w, "msg": m, "extra": e, "pop": p}));
            }
        }
    }
    for n in &[48, 32, 1, 96, 300] {
        for w in &["crh", "first"] {
            o.push(json!({"op": "part", "which": w, "msg": m, "n": n}));
            o.push(json!({"op": "part", "which": w, "msg": x, "n": n}));
        }
    }
    o
}
/// batches of one mode: all good, one bad at each place, uneven, empty, and one signer too many
fn batches(rng: &mut impl Rng, mode: (bool, bool), n: usize) -> Vec<Value> {
    // the refused mode signs nothing
    let (c, p) = mode;
    let (sc, sp) = if mode == (false, true) { (true, true) } else { mode };
    let msg = |i: usize| vec![i as u8 + 1; i + 1];
    let x = vec![rng.gen::<u8>(); 3];
    let mut o = vec![];
    let mut at = 0;
    let (mut ks, mut same, mut own) = (vec![], vec![], vec![]);
    for i in 0..n {
        o.push(json!({"op": "genkey", "sk": 1000003 * (i as i64 + 1)}));
        o.push(json!({"op": "topub", "o": at + 1}));
        o.push(json!({"op": "sign", "k": at + 1, "msg": msg(0), "extra": x, "comp": sc, "cip": sp}));
        o.push(json!({"op": "sign", "k": at + 1, "msg": msg(i), "extra": x, "comp": sc, "cip": sp}));
        ks.push(at + 2);
        same.push(at + 3);
        own.push(at + 4);
        at += 4;
    }
    o.push(json!({"op": "tamper", "s": same[0], "n": 1}));
    o.push(json!({"op": "tamper", "s": same[n - 1], "n": -1}));
    let bad = (at + 1, at + 2);
    let b = |ks: &[usize], ss: &[usize]| json!({"msg": msg(0), "extra": x, "ks": ks, "ss": ss});
    let mut lists = vec![vec![b(&ks, &same)], vec![], vec![b(&[], &[])], vec![b(&ks, &same[..n - 1])], vec![b(&ks[..n - 1], &same)]];
    for k in 0..n {
        let mut s = same.clone();
        s[k] = bad.0;
        lists.push(vec![b(&ks, &same), b(&ks, &s), b(&ks, &same)]);
        lists.push(vec![b(&ks, &s), b(&ks, &same)]);
        lists.push(vec![b(&ks[k..], &s[k..])]);
    }
    if n > 1 {
        // errors that cancel
        let mut s = same.clone();
        s[0] = bad.0;
        s[n - 1] = bad.1;
        lists.push(vec![b(&ks, &s)]);
        s = same.clone();
        s.swap(0, n - 1);
        lists.push(vec![b(&ks, &s), b(&ks, &same), b(&ks, &own)]);
    }
    for l in lists {
        for (c2, p2) in modes() {
            if (c2, p2) == (c, p) || rng.gen_range(0, 3) == 0 {
                o.push(json!({"op": "bvstrict", "batches": l, "comp": c2, "cip": p2}));
            }
        }
    }
    let it = |i: usize, s: usize, m: usize| json!({"k": ks[i], "s": s, "msg": msg(m), "extra": x});
    let good: Vec<Value> = (0..n).map(|i| it(i, own[i], i)).collect();
    let mut all = vec![good.clone(), good[1..].to_vec(), vec![], (0..n).map(|i| it(i, same[i], 0)).collect(), (0..n).map(|i| it(i, same[i], i)).collect()];
    // one answer for the sum: only the sum counts
    all.push((0..n).map(|i| it(i, own[(i + 1) % n], i)).collect());
    all.push((0..n).map(|i| it(i, own[i], (i + 1) % n)).collect());
    all.push((0..n).map(|i| it((i + 1) % n, own[i], i)).collect());
    let mut g = good;
    g[0]["s"] = json!(bad.0);
    all.push(g);
    for l in all {
        for (c2, p2) in modes() {
            if (c2, p2) == (c, p) || rng.gen_range(0, 3) == 0 {
                o.push(json!({"op": "bvsig", "items": l, "comp": c2, "cip": p2}));
            }
        }
    }
    o
}
/// encodings, and what is made of them after everything else has been released
fn bytes_trip(sk: i64) -> Vec<Value> {
    let mut o = vec![json!({"op": "newkey", "sk": sk}), json!({"op": "topub", "o": 1}), json!({"op": "sign", "k": 1, "msg": [4, 5], "extra": [], "comp": true, "cip": true})];
    // 4..8
    for (i, f) in &[(1, "c"), (2, "c"), (2, "u"), (3, "c"), (3, "u")] {
        o.push(json!({"op": "ser", "o": i, "form": f}));
    }
    for i in 1..=3 {
        o.push(json!({"op": "destroy", "o": i}));
    }
    o.push(json!({"op": "compress", "o": 6, "kind": "pk"}));
    o.push(json!({"op": "compress", "o": 8, "kind": "sig"}));
    let n = if sk == 0 { 8 } else { 10 };
    o.push(json!({"op": "deser", "o": 4, "kind": "sk"}));
    o.push(json!({"op": "deser", "o": 5, "kind": "pk"}));
    o.push(json!({"op": "deser", "o": 7, "kind": "sig"}));
    for i in 4..=8 {
        o.push(json!({"op": "destroy", "o": i}));
    }
    o.push(json!({"op": "verify", "k": n + 2, "msg": [4, 5], "extra": [], "s": n + 3, "comp": true, "cip": true}));
    o.push(json!({"op": "sign", "k": n + 1, "msg": [4, 5], "extra": [], "comp": true, "cip": true}));
    o.push(json!({"op": "topub", "o": n + 1}));
    if sk != 0 {
        o.push(json!({"op": "deser", "o": 9, "kind": "pk"}));
        o.push(json!({"op": "deser", "o": 10, "kind": "sig"}));
    }
    for k in &["sk", "pk", "sig", "buf"] {
        o.push(json!({"op": "destroynull", "kind": k}));
    }
    o
}
/// validator sets that come and go, through the cache
fn committees(rng: &mut impl Rng, n: usize) -> Vec<Value> {
    let mut o = vec![];
    for i in 0..n {
        o.push(json!({"op": "newkey", "sk": i as i64 + 1}));
    }
    let mut ks = vec![];
    for i in 0..n {
        o.push(json!({"op": "topub", "o": i + 1}));
        ks.push(n + i + 1);
    }
    let mut at = 2 * n;
    for i in 0..n {
        o.push(json!({"op": "ser", "o": ks[i], "form": "c"}));
    }
    let first = at;
    at += n;
    for _ in 0..3 {
        for i in 0..n {
            if rng.gen() {
                o.push(json!({"op": "deser", "o": first + i + 1, "kind": "cached"}));
                at += 1;
                ks.push(at);
            }
        }
        let m = ks.len();
        let mut set: Vec<usize> = ks.iter().copied().filter(|_| rng.gen_range(0, 3) > 0).collect();
        if rng.gen_range(0, 4) == 0 {
            set.clear();
        }
        o.push(json!({"op": "aggkeys", "ks": set}));
        at += 1;
        let whole = at;
        ks.push(at);
        let part: Vec<usize> = set.iter().copied().filter(|_| rng.gen()).collect();
        o.push(json!({"op": "subkeys", "k": whole, "ks": part}));
        o.push(json!({"op": "subkeys", "k": whole, "ks": set}));
        o.push(json!({"op": "subkeys", "k": ks[rng.gen_range(0, m)], "ks": [ks[rng.gen_range(0, m)]]}));
        at += 3;
        ks.push(at - 2);
        // the very set again, and turned round
        o.push(json!({"op": "aggkeys", "ks": set}));
        set.reverse();
        o.push(json!({"op": "aggkeys", "ks": set}));
        at += 2;
        if let Some(k) = set.pop() {
            o.push(json!({"op": "aggkeys", "ks": set}));
            set.push(k);
            set.push(k);
            o.push(json!({"op": "aggkeys", "ks": set}));
            at += 2;
        }
    }
    o
}
/// longer lists than a byte counts
fn many(n: usize, mode: (bool, bool)) -> Vec<Value> {
    let (c, p) = mode;
    let (m, x) = (vec![3u8, 1], vec![7u8]);
    let mut o = vec![];
    for i in 0..n {
        o.push(json!({"op": "newkey", "sk": i as i64 + 1}));
    }
    for i in 0..n {
        o.push(json!({"op": "topub", "o": i + 1}));
    }
    let ks: Vec<usize> = (n + 1..=2 * n).collect();
    // two signers' signatures, and one of theirs spoilt
    o.push(json!({"op": "sign", "k": 1, "msg": m, "extra": x, "comp": c, "cip": p}));
    o.push(json!({"op": "sign", "k": 2, "msg": m, "extra": x, "comp": c, "cip": p}));
    o.push(json!({"op": "tamper", "s": 2 * n + 1, "n": 1}));
    o.push(json!({"op": "tamper", "s": 2 * n + 1, "n": -1}));
    let (s1, s2, b1, b2) = (2 * n + 1, 2 * n + 2, 2 * n + 3, 2 * n + 4);
    o.push(json!({"op": "aggkeys", "ks": ks}));
    o.push(json!({"op": "aggkeys", "ks": ks[..256]}));
    o.push(json!({"op": "subkeys", "k": 2 * n + 5, "ks": ks[..256]}));
    o.push(json!({"op": "subkeys", "k": 2 * n + 5, "ks": ks[..n - 1]}));
    let sigs: Vec<usize> = (0..n).map(|i| if i % 2 == 0 { s1 } else { s2 }).collect();
    let of: Vec<usize> = (0..n).map(|i| if i % 2 == 0 { n + 1 } else { n + 2 }).collect();
    o.push(json!({"op": "aggsigs", "ss": sigs}));
    o.push(json!({"op": "aggsigs", "ss": sigs[..256]}));
    let item = |k: usize, s: usize| json!({"k": k, "s": s, "msg": m, "extra": x});
    let one = |k: usize, s: usize| json!({"msg": m, "extra": x, "ks": [k], "ss": [s]});
    for bad in &[vec![], vec![(n - 1, b1)], vec![(255, b1)], vec![(256, b1)], vec![(0, b1), (256, b2)]] {
        let (mut k2, mut ss) = (of.clone(), sigs.clone());
        for (i, b) in bad {
            k2[*i] = n + 1;
            ss[*i] = *b;
        }
        o.push(json!({"op": "bvsig", "comp": c, "cip": p, "items": k2.iter().zip(&ss).map(|(k, s)| item(*k, *s)).collect::<Vec<_>>()}));
        o.push(json!({"op": "bvstrict", "comp": c, "cip": p, "batches": [{"msg": m, "extra": x, "ks": k2, "ss": ss}]}));
        if bad.len() == 1 {
            o.push(json!({"op": "bvstrict", "comp": c, "cip": p, "batches": k2.iter().zip(&ss).map(|(k, s)| one(*k, *s)).collect::<Vec<_>>()}));
        }
    }
    // a message, and extra data, of more bytes than that
    for (m, x) in &[(300usize, 3usize), (3, 300), (256, 256)] {
        let (m, x): (Vec<u8>, Vec<u8>) = ((0..*m).map(|i| i as u8).collect(), (0..*x).map(|i| i as u8).collect());
        let at = o.iter().filter(|q| ["newkey", "topub", "sign", "tamper", "aggkeys", "subkeys", "aggsigs"].contains(&q["op"].as_str().unwrap())).count();
        o.push(json!({"op": "sign", "k": 3, "msg": m, "extra": x, "comp": c, "cip": p}));
        o.push(json!({"op": "verify", "k": n + 3, "msg": m, "extra": x, "s": at + 1, "comp": c, "cip": p}));
        o.push(json!({"op": "verify", "k": n + 3, "msg": m[..m.len() - 1], "extra": x, "s": at + 1, "comp": c, "cip": p}));
        o.push(json!({"op": "verify", "k": n + 3, "msg": m, "extra": x[..x.len() - 1], "s": at + 1, "comp": c, "cip": p}));
        let y: Vec<u8> = x.iter().map(|b| b ^ 1).collect();
        o.push(json!({"op": "verify", "k": n + 3, "msg": m, "extra": y, "s": at + 1, "comp": c, "cip": p}));
    }
    o
}

pub fn jobs(c: &Ctx) -> Vec<Value> {
    let mut rng = c.rng(0x5e5);
    let mut v: Vec<Value> = vec![];
    for (i, s) in c.script.iter().enumerate() {
        v.push(json!({"sessions": [s], "null": i % 2 == 1}));
    }
    for m in [(true, true), (true, false), (false, false)] {
        v.push(json!({"sessions": [many(if c.thorough { 700 } else { 270 }, m)], "null": false}));
    }
    for i in 0..if c.thorough { 24 } else { 4 } {
        let nul = i % 2 == 1;
        v.push(json!({"sessions": [matrix(&mut rng)], "null": nul}));
        v.push(json!({"sessions": [hashes(&mut rng)], "null": nul}));
        for m in modes() {
            for n in &[1usize, 2, 4] {
                v.push(json!({"sessions": [batches(&mut rng, m, *n)], "null": nul}));
            }
        }
        for sk in &[0i64, 1, -1, 7] {
            v.push(json!({"sessions": [bytes_trip(*sk)], "null": nul}));
        }
        for n in &[1usize, 3, 8] {
            v.push(json!({"sessions": [committees(&mut rng, *n)], "null": nul}));
        }
        // callers at the same time, sharing the cache
        let four: Vec<Vec<Value>> = (0..4).map(|_| committees(&mut rng, 5)).collect();
        v.push(json!({"sessions": four, "null": nul}));
    }
    v
}
pub fn exec(j: &Value) -> Vec<Value> {
    let ss: Vec<Vec<Value>> = j["sessions"].as_array().unwrap().iter().map(|s| s.as_array().unwrap().clone()).collect();
    let nul = j["null"].as_bool().unwrap();
    if ss.len() == 1 {
        return vec![session(&ss[0], nul, false)];
    }
    std::thread::scope(|s| {
        let hs: Vec<_> = ss.iter().map(|o| s.spawn(move || session(o, nul, true))).collect();
        hs.into_iter().map(|h| h.join().expect("caller")).collect()
    })
}
/// no outcome the specification knows
pub fn died(j: &Value) -> Value {
    let mut ops = j["sessions"][0].as_array().unwrap().clone();
    ops.insert(0, json!({"op": "the process ended"}));
    json!({"op": "session", "null": j["null"], "ops": ops})
}
