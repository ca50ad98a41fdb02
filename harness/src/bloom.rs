//! Bloom filter drivers.

use crate::rec::*;
use crate::stor::rand_id;
use common::bloom_filter::{BloomFilter128, BloomFilter256};
use common::sha1::Sha1Hash;
use serde_json::{json, Value as J};

enum F {
    A(BloomFilter128),
    B(BloomFilter256),
}

macro_rules! each {
    ($f:expr, $x:ident => $e:expr) => {
        match $f {
            F::A($x) => $e,
            F::B($x) => $e,
        }
    };
}

fn key(j: &J) -> Sha1Hash {
    let b = to_bytes(j);
    let mut a = [0; 20];
    a.copy_from_slice(&b);
    a.into()
}

fn array<const N: usize>(b: &[u8]) -> [u8; N] {
    let mut a = [0; N];
    a.copy_from_slice(b);
    a
}

fn build(wide: bool, b: &[u8], m: u64) -> F {
    let text = std::str::from_utf8(b);
    match (wide, m, text) {
        (false, 1, _) => F::A(b.to_vec().into()),
        (true, 1, _) => F::B(b.to_vec().into()),
        (false, 2, _) => F::A(array::<128>(b).into()),
        (true, 2, _) => F::B(array::<256>(b).into()),
        (false, 3, Ok(t)) => F::A(t.into()),
        (true, 3, Ok(t)) => F::B(t.into()),
        (false, 4, Ok(t)) => F::A(t.to_string().into()),
        (true, 4, Ok(t)) => F::B(t.to_string().into()),
        (false, _, _) => F::A(b.into()),
        (true, _, _) => F::B(b.into()),
    }
}

fn apply(fs: &mut [F], o: &J) -> J {
    let u = |k: &str| o[k].as_u64().unwrap_or(1) as usize - 1;
    let (i, j, m) = (u("i"), u("j"), o["m"].as_u64().unwrap_or(0));
    let mut v = J::from(0);
    match o["f"].as_str().unwrap() {
        "set" => each!(&mut fs[i], x => x.set(&key(&o["key"]))),
        "find" => v = J::from(each!(&fs[i], x => x.find(&key(&o["key"])))),
        "clear" => each!(&mut fs[i], x => x.clear()),
        "bytes" => v = each!(&fs[i], x => bytes(x.as_bytes())),
        "load" => {
            let wide = matches!(fs[i], F::B(_));
            fs[i] = build(wide, &to_bytes(&o["b"]), m);
        }
        "copy" => {
            let b = each!(&fs[j], x => x.as_bytes().to_vec());
            fs[i] = build(b.len() == 256, &b, m);
        }
        "size" => {
            let e = each!(&fs[i], x => x.size());
            // non-negative numbers sort like their representation
            let b = if e >= 0.0 { bytes(&(e + 0.0).to_bits().to_be_bytes()) } else { bytes(&[255; 8]) };
            let x = if e.is_infinite() { -1 } else { (e * 1000.0).min(2e9) as i64 };
            v = json!({"b": b, "x": x});
        }
        f => panic!("{}", f),
    }
    ok(v)
}

fn open(c: &mut Ctx, wide: &[bool]) -> Vec<F> {
    c.case(json!({"m": wide.iter().map(|w| if *w { 2048 } else { 1024 }).collect::<Vec<_>>()}));
    wide.iter().map(|w| if *w { F::B(Default::default()) } else { F::A(BloomFilter128::new()) }).collect()
}

fn keys(r: &mut Rng) -> Vec<[u8; 20]> {
    let mut ks: Vec<[u8; 20]> = vec![];
    for _ in 0..r.range(3, 9) {
        let mut k = rand_id(r);
        if r.chance(1, 2) {
            for x in k[..4].iter_mut() {
                *x = *r.pick(&[0u8, 1, 2, 3, 4, 7, 8, 9, 127, 128, 255]);
            }
        }
        if !ks.is_empty() && r.chance(1, 3) {
            // shares a bit with another, in either place
            let o = *r.pick(&ks);
            match r.below(4) {
                0 => k[..2].copy_from_slice(&o[..2]),
                1 => k[..2].copy_from_slice(&o[2..4]),
                2 => k[2..4].copy_from_slice(&o[..2]),
                _ => {
                    k[..4].copy_from_slice(&o[..4]);
                    k[1] ^= 4 << r.below(6);
                }
            }
        }
        ks.push(k);
    }
    ks
}

/// Estimates of filters with few or many bits in different arrangements.
fn spread(c: &mut Ctx) {
    let wide = c.rng.chance(1, 2);
    let mut fs = open(c, &[wide]);
    let len = if wide { 256 } else { 128 };
    let m = len * 8;
    let n = match c.rng.below(4) {
        0 => c.rng.range(0, 6),
        1 => m - c.rng.range(0, 6),
        _ => c.rng.below(m),
    };
    for _ in 0..10 {
        let r = &mut c.rng;
        let n = (n + r.below(2)).min(m);
        let (start, step) = (r.below(m), *r.pick(&[1, 1, 3, 5, 9, 17, 129]));
        let mut b = vec![0u8; len];
        if r.chance(1, 3) {
            let mut all: Vec<usize> = (0..m).collect();
            for i in 0..n {
                let j = i + r.below(m - i);
                all.swap(i, j);
                b[all[i] / 8] |= 1 << (all[i] % 8);
            }
        } else {
            for i in 0..n {
                let p = (start + i * step) % m;
                b[p / 8] |= 1 << (p % 8);
            }
        }
        let o = json!({"f": "load", "i": 1, "b": bytes(&b), "m": r.below(5)});
        c.op(o.clone(), || apply(&mut fs, &o));
        let o = json!({"f": "size", "i": 1});
        c.op(o.clone(), || apply(&mut fs, &o));
    }
}

pub fn bloom(c: &mut Ctx) {
    if let Some(path) = c.input.clone() {
        for line in std::fs::read_to_string(path).unwrap().lines() {
            let j: J = serde_json::from_str(line).unwrap();
            let wide = c.rng.chance(1, 2);
            let mut fs = open(c, &[wide, wide]);
            let mut ks = keys(&mut c.rng);
            while ks.len() < 4 {
                ks.extend(keys(&mut c.rng));
            }
            for o in j["h"].as_array().unwrap() {
                let mut o = o.clone();
                if let Some(n) = o.get("key").and_then(|n| n.as_u64()) {
                    o["key"] = bytes(&ks[n as usize - 1]);
                }
                o["j"] = J::from(3 - o["i"].as_u64().unwrap());
                c.op(o.clone(), || apply(&mut fs, &o));
            }
            for i in 1..3 {
                for k in &ks[..4] {
                    let o = json!({"f": "find", "i": i, "key": bytes(k)});
                    c.op(o.clone(), || apply(&mut fs, &o));
                }
                let o = json!({"f": "size", "i": i});
                c.op(o.clone(), || apply(&mut fs, &o));
            }
        }
        return;
    }
    for _ in 0..c.n / 8 {
        spread(c);
    }
    for no in 0..c.n {
        let wide = [c.rng.chance(1, 2), c.rng.chance(1, 2), c.rng.chance(1, 2)];
        let mut fs = open(c, &wide);
        let mut ks = keys(&mut c.rng);
        if no % 10 == 0 {
            // fill one up, watching the estimate
            let n = if c.thorough { 400 } else { 60 };
            for s in 0..n {
                let k = rand_id(&mut c.rng);
                let o = json!({"f": "set", "i": 1, "key": bytes(&k)});
                c.op(o.clone(), || apply(&mut fs, &o));
                if s % 3 == 0 {
                    let o = json!({"f": "size", "i": 1});
                    c.op(o.clone(), || apply(&mut fs, &o));
                }
                if s % 10 == 0 {
                    ks.push(k);
                }
            }
        }
        for _ in 0..c.rng.range(5, 25) {
            let r = &mut c.rng;
            let i = r.range(1, 3);
            let len = if wide[i - 1] { 256 } else { 128 };
            let o = match r.below(20) {
                0..=7 => json!({"f": "set", "i": i, "key": bytes(r.pick(&ks))}),
                8..=12 => json!({"f": "find", "i": i, "key": bytes(r.pick(&ks))}),
                13 | 14 => json!({"f": "size", "i": i}),
                15 => json!({"f": "bytes", "i": i}),
                16 => match (1..=3).find(|j| *j != i && wide[j - 1] == wide[i - 1]) {
                    Some(j) => json!({"f": "copy", "i": i, "j": j, "m": r.below(5)}),
                    None => continue,
                },
                17 => {
                    let b: Vec<u8> = match r.below(8) {
                        0 => vec![0xff; len],
                        1 => vec![0; len],
                        2 => {
                            let mut b = vec![0xff; len];
                            b[r.below(len)] ^= 1 << r.below(8);
                            b
                        }
                        3 => {
                            let mut b = vec![0; len];
                            b[r.below(len)] = 1 << r.below(8);
                            b
                        }
                        4 => vec![r.byte(); len],
                        5 => (0..len).map(|_| r.byte() & 0x7f).collect(),
                        _ => r.bytes(len),
                    };
                    json!({"f": "load", "i": i, "b": bytes(&b), "m": r.below(5)})
                }
                18 if r.chance(1, 2) => json!({"f": "clear", "i": i}),
                _ => continue,
            };
            c.op(o.clone(), || apply(&mut fs, &o));
        }
    }
}
