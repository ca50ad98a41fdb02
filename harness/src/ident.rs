//! Identifier drivers: a register machine of 160-bit identifiers, distances,
//! ordered positions.

use crate::rec::*;
use crate::stor::rand_id;
use common::sha1::Sha1Hash;
use dht::node::{distance_exp, min_distance_exp};
use serde_json::{json, Value as J};
use std::cmp::Ordering;
use std::net::IpAddr;

const REGS: usize = 4;

/// The registers, between two guard zones.
#[repr(C)]
struct Bank {
    pre: [u8; 64],
    regs: [Sha1Hash; REGS],
    post: [u8; 64],
}

impl Bank {
    fn new(v: &[[u8; 20]]) -> Box<Bank> {
        Box::new(Bank {
            pre: [0xa5; 64],
            regs: [v[0].into(), v[1].into(), v[2].into(), v[3].into()],
            post: [0x5a; 64],
        })
    }
    fn json(&self) -> J {
        self.regs.iter().map(|x| bytes(x)).collect()
    }
    fn result(&self, v: J) -> J {
        if self.pre != [0xa5; 64] || self.post != [0x5a; 64] {
            return json!({"k": "overrun"});
        }
        json!({"k": "ok", "v": v, "regs": self.json()})
    }
}

fn word(b: Option<bool>) -> J {
    match b {
        Some(x) => J::from(x),
        None => J::from("mixed"),
    }
}

/// All the ways to ask agree, else None.
fn same(v: &[bool]) -> Option<bool> {
    if v.iter().all(|x| *x == v[0]) {
        Some(v[0])
    } else {
        None
    }
}

macro_rules! binop {
    ($b:expr, $d:expr, $i:expr, $j:expr, $m:expr, $op:tt, $opa:tt) => {{
        let x = $b.regs[$i].clone();
        let y = $b.regs[$j].clone();
        match $m {
            1 => $b.regs[$d] = x $op y,
            2 => $b.regs[$d] = x $op &y,
            3 => {
                let z = &$b.regs[$i] $op y;
                $b.regs[$d] = z;
            }
            4 => {
                let z = &$b.regs[$i] $op &$b.regs[$j];
                $b.regs[$d] = z;
            }
            5 => {
                $b.regs[$i] $opa y;
            }
            _ => {
                $b.regs[$i] $opa &y;
            }
        }
    }};
}

fn apply(b: &mut Bank, op: &J) -> J {
    let u = |k: &str| op[k].as_u64().unwrap_or(1) as usize - 1;
    let (i, j, d, m) = (u("i"), u("j"), u("d"), op["m"].as_u64().unwrap_or(1));
    let n = op["n"].as_u64().unwrap_or(0) as usize;
    let mut v = J::from(0);
    match op["f"].as_str().unwrap() {
        "and" => binop!(b, d, i, j, m, &, &=),
        "or" => binop!(b, d, i, j, m, |, |=),
        "xor" => binop!(b, d, i, j, m, ^, ^=),
        "shl" => b.regs[i] <<= if let Some(h) = op["huge"].as_u64() { (h as usize).wrapping_add(n) } else { n },
        "shr" => b.regs[i] >>= if let Some(h) = op["huge"].as_u64() { (h as usize).wrapping_add(n) } else { n },
        "not" => {
            let x = b.regs[i].clone();
            b.regs[d] = !x
        }
        "const" => match m {
            1 => b.regs[d] = Sha1Hash::max(),
            2 => b.regs[d] = Sha1Hash::min(),
            3 => b.regs[d] = Sha1Hash::new(),
            4 => b.regs[d] = Sha1Hash::default(),
            _ => b.regs[d].clear(),
        },
        "poke" => {
            let at = op["at"].as_u64().unwrap() as usize - 1;
            let x = op["b"].as_u64().unwrap() as u8;
            match m {
                1 => b.regs[d][at] = x,
                _ => *b.regs[d].iter_mut().nth(at).unwrap() = x,
            }
        }
        "load" => {
            let raw = to_bytes(&op["b"]);
            let mut a = [0; 20];
            if raw.len() == 20 {
                a.copy_from_slice(&raw);
            }
            match m {
                2 if raw.len() == 20 => {
                    b.regs[d] = Sha1Hash::from(a);
                    v = J::from(true);
                }
                3 if raw.len() == 20 => {
                    b.regs[d] = Sha1Hash::from(&a);
                    v = J::from(true);
                }
                _ => match Sha1Hash::from_bytes(&raw) {
                    Some(x) => {
                        b.regs[d] = x;
                        v = J::from(true);
                    }
                    None => v = J::from(false),
                },
            }
        }
        "clz" => v = J::from(b.regs[i].leading_zeros()),
        "cmp" => {
            let (x, y) = (&b.regs[i], &b.regs[j]);
            let lt = same(&[x < y, x.cmp(y) == Ordering::Less, x.partial_cmp(y) == Some(Ordering::Less), y > x, !(x >= y)]);
            let gt = same(&[x > y, x.cmp(y) == Ordering::Greater, y < x, !(x <= y)]);
            v = match (lt, gt) {
                (Some(true), Some(false)) => J::from("lt"),
                (Some(false), Some(true)) => J::from("gt"),
                (Some(false), Some(false)) => J::from("eq"),
                _ => J::from("mixed"),
            };
        }
        "eq" => {
            let (x, y) = (&b.regs[i], &b.regs[j]);
            v = word(same(&[x == y, y == x, !(x != y), x.cmp(y) == Ordering::Equal]));
        }
        "zero" => v = J::from(b.regs[i].all_zeroes()),
        "show" => v = bytes(format!("{}", b.regs[i]).as_bytes()),
        "bytes" => {
            v = match m {
                1 => bytes(&b.regs[i]),
                2 => b.regs[i].iter().map(|x| J::from(*x)).collect(),
                _ => (0..b.regs[i].len()).map(|k| J::from(b.regs[i][k])).collect(),
            }
        }
        "dist" => v = J::from(distance_exp(&b.regs[i], &b.regs[j])),
        "mind" => {
            let ids: Vec<Sha1Hash> =
                op["js"].as_array().unwrap().iter().map(|x| b.regs[x.as_u64().unwrap() as usize - 1].clone()).collect();
            v = J::from(min_distance_exp(&b.regs[i], &ids));
        }
        f => panic!("{}", f),
    }
    b.result(v)
}

fn open(c: &mut Ctx, v: &[[u8; 20]]) -> Box<Bank> {
    let b = Bank::new(v);
    c.case(json!({"regs": b.json()}));
    b
}

/// An identifier, often close to one of `near`.
fn gen_id(r: &mut Rng, near: &[[u8; 20]]) -> [u8; 20] {
    let mut x = match r.below(8) {
        0 => [0; 20],
        1 => [0xff; 20],
        2 => [*r.pick(&[1u8, 0x80, 0x7f, 0xaa, 0x55]); 20],
        3 => {
            let mut x = [0; 20];
            let p = r.below(160);
            x[p / 8] = 0x80 >> (p % 8);
            x
        }
        _ => rand_id(r),
    };
    if !near.is_empty() && r.chance(1, 2) {
        x = *r.pick(near);
        match r.below(4) {
            0 => {}
            1 | 2 => {
                // differs at one position, and maybe below it
                let p = r.below(160);
                x[p / 8] ^= 0x80 >> (p % 8);
                if r.chance(1, 2) {
                    for q in p + 1..160 {
                        if r.chance(1, 2) {
                            x[q / 8] ^= 0x80 >> (q % 8);
                        }
                    }
                }
            }
            _ => {
                let p = r.below(20);
                x[p] = x[p].wrapping_add(1);
            }
        }
    }
    x
}

fn gen_shift(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => *r.pick(&[0, 1, 7, 8, 9, 15, 16, 17, 79, 80, 81, 151, 152, 153, 158, 159, 160, 161, 167, 168, 255, 256, 257, 1000, 20000, 65536]),
        1 => r.below(20) * 8,
        2 => r.below(8),
        // (so that a narrower number would be small)
        3 if r.chance(1, 3) => (1 << r.range(8, 28)) + r.below(165),
        _ => r.below(165),
    }
}

/// C14: random histories; with an input file, the operations listed there.
pub fn regs(c: &mut Ctx) {
    if let Some(path) = c.input.clone() {
        let text = std::fs::read_to_string(path).unwrap();
        for (no, line) in text.lines().enumerate() {
            if !c.thorough && no % c.n.max(1) != 0 {
                continue;
            }
            let j: J = serde_json::from_str(line).unwrap();
            let mut v = vec![];
            for _ in 0..REGS {
                let x = gen_id(&mut c.rng, &v);
                v.push(x);
            }
            let mut b = open(c, &v);
            for o in j["h"].as_array().unwrap() {
                let mut o = o.clone();
                let m = o["m"].as_u64().unwrap_or(1);
                o["d"] = if m < 5 && o["f"] != "shl" { J::from(3) } else { o["i"].clone() };
                if let Some(k) = o.get("k").cloned() {
                    o["n"] = k;
                }
                c.op(o.clone(), || apply(&mut b, &o));
            }
        }
        return;
    }
    for no in 0..c.n {
        let mut v = vec![];
        for _ in 0..REGS {
            let x = gen_id(&mut c.rng, &v);
            v.push(x);
        }
        let mut b = open(c, &v);
        for step in 0..c.rng.range(3, 10) {
            let r = &mut c.rng;
            let i = r.range(1, REGS);
            let j = r.range(1, REGS);
            let d = r.range(1, REGS);
            let o = match r.below(18) {
                0..=2 => json!({"f": "shl", "i": i, "n": if step == 0 { no % 165 } else { gen_shift(r) }}),
                3..=5 => json!({"f": "shr", "i": i, "n": if step == 0 { no % 165 } else { gen_shift(r) }}),
                6..=8 => {
                    let m = r.range(1, 6);
                    json!({"f": *r.pick(&["and", "or", "xor"]), "i": i, "j": j, "d": if m > 4 { i } else { d }, "m": m})
                }
                9 => json!({"f": "not", "i": i, "d": d}),
                10 => match r.below(3) {
                    0 => {
                        let m = r.range(1, 5);
                        json!({"f": "const", "d": d, "m": m, "ones": m == 1})
                    }
                    1 => json!({"f": "poke", "d": d, "at": r.range(1, 20), "b": r.byte(), "m": r.range(1, 2)}),
                    _ => {
                        let n = *r.pick(&[20, 20, 20, 20, 0, 1, 19, 21, 40]);
                        json!({"f": "load", "d": d, "b": bytes(&r.bytes(n)), "m": r.range(1, 3)})
                    }
                },
                11 => json!({"f": "clz", "i": i}),
                12 => json!({"f": "cmp", "i": i, "j": j}),
                13 => json!({"f": "eq", "i": i, "j": j}),
                14 => json!({"f": "zero", "i": i}),
                15 => json!({"f": "show", "i": i}),
                16 => json!({"f": "bytes", "i": i, "m": r.range(1, 3)}),
                _ => {
                    let f = *r.pick(&["shl", "shr"]);
                    let n = r.below(1000);
                    // a power of 2 or a little more, or the largest numbers
                    let (h, n) = match r.below(3) {
                        0 => (u64::MAX - 999, n),
                        1 => (1 << r.range(29, 63), n),
                        _ => (1 << r.range(29, 63), n % 165),
                    };
                    c.op(json!({"f": f, "i": i, "n": 1_000_000_000 - n, "huge": true}), || {
                        let o = json!({"f": f, "i": i, "n": n, "huge": h});
                        apply(&mut b, &o)
                    });
                    continue;
                }
            };
            c.op(o.clone(), || apply(&mut b, &o));
        }
    }
}

/// C13
pub fn dist(c: &mut Ctx) {
    // every position of the highest difference, at random prefixes
    for p in 0..161 {
        for _ in 0..if c.thorough { 20 } else { 3 } {
            let x = gen_id(&mut c.rng, &[]);
            let mut y = x;
            let mut z = x;
            if p < 160 {
                y[p / 8] ^= 0x80 >> (p % 8);
                z[p / 8] ^= 0x80 >> (p % 8);
                for q in p + 1..160 {
                    if c.rng.chance(1, 2) {
                        z[q / 8] ^= 0x80 >> (q % 8);
                    }
                }
            }
            let w = gen_id(&mut c.rng, &[x, y]);
            let mut b = open(c, &[x, y, z, w]);
            for (i, j) in [(1, 2), (2, 1), (1, 3), (3, 1), (2, 3), (1, 4), (4, 3), (1, 1)] {
                let o = json!({"f": "dist", "i": i, "j": j});
                c.op(o.clone(), || apply(&mut b, &o));
            }
            let js: Vec<usize> = (0..c.rng.range(1, 4)).map(|_| c.rng.range(1, REGS)).collect();
            let mut k = js.clone();
            k.reverse();
            for js in [js, k] {
                let o = json!({"f": "mind", "i": 1, "js": js});
                c.op(o.clone(), || apply(&mut b, &o));
            }
        }
    }
    // the nearest of many, anywhere among them
    for n in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 19, 20, 21, 24, 25, 31, 32, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 160, 161, 255, 256, 257].iter() {
        for at in [0, 1, n / 2, n - 1].iter() {
            let far = c.rng.range(1, 158);
            let near = far + c.rng.range(1, 159 - far);
            let x = c.rng.bytes(20);
            let mut v = vec![[0u8; 20]; REGS];
            for (k, p) in [200, far, near].iter().enumerate() {
                v[k].copy_from_slice(&x);
                for q in *p..160 {
                    if q == *p || c.rng.chance(1, 2) {
                        v[k][q / 8] ^= 0x80 >> (q % 8);
                    }
                }
            }
            let mut b = open(c, &v);
            let mut js = vec![2; *n];
            js[*at.min(&(n - 1))] = 3;
            let o = json!({"f": "mind", "i": 1, "js": js});
            c.op(o.clone(), || apply(&mut b, &o));
        }
    }
    for _ in 0..c.n {
        let mut v = vec![];
        for _ in 0..REGS {
            let x = gen_id(&mut c.rng, &v);
            v.push(x);
        }
        let mut b = open(c, &v);
        for _ in 0..c.rng.range(2, 6) {
            let r = &mut c.rng;
            let i = r.range(1, REGS);
            let o = if r.chance(1, 2) {
                json!({"f": "dist", "i": i, "j": r.range(1, REGS)})
            } else {
                let js: Vec<usize> = (0..r.range(1, 7)).map(|_| r.range(1, REGS)).collect();
                json!({"f": "mind", "i": i, "js": js})
            };
            c.op(o.clone(), || apply(&mut b, &o));
        }
    }
}

/// C28: positions in ascending sequences, of several element types.
pub fn bound(c: &mut Ctx) {
    let zero = [[0; 20]; REGS];
    let ids: Vec<Sha1Hash> = (0..4096)
        .map(|i| {
            let mut b = [7; 20];
            b[9] = (i / 64) as u8;
            b[19] = (i % 64) as u8;
            b.into()
        })
        .collect();
    let words: Vec<String> = (0..4096).map(|i| format!("w{:04}", i)).collect();
    let ask = |c: &mut Ctx, s: &[i64], x: i64, ty: usize| -> Option<usize> {
        let o = json!({"f": "bound", "s": s, "x": x, "ty": ty});
        let r = c.op(o, || {
            let k = |v: &i64| (*v + 20) as usize;
            ok(J::from(match ty {
                0 => dht::detail::lower_bound(s, &x),
                1 => dht::detail::lower_bound(&s.iter().map(|v| ids[k(v)].clone()).collect::<Vec<_>>(), &ids[k(&x)]),
                2 => dht::detail::lower_bound(&s.iter().map(|v| &words[k(v)][..]).collect::<Vec<_>>(), &&words[k(&x)][..]),
                3 => dht::detail::lower_bound(&s.iter().map(|v| *v as f64 / 4.0).collect::<Vec<_>>(), &(x as f64 / 4.0)),
                4 => dht::detail::lower_bound(&s.iter().map(|v| (k(v) as u8, *v)).collect::<Vec<_>>(), &(k(&x) as u8, x)),
                5 => dht::detail::lower_bound(&s.iter().map(|v| v << 57).collect::<Vec<_>>(), &(x << 57)),
                _ => dht::detail::lower_bound(&s.iter().map(|v| k(v) as u8 * 4).collect::<Vec<_>>(), &(k(&x) as u8 * 4)),
            }))
        });
        r["v"].as_u64().map(|v| v as usize)
    };
    if let Some(path) = c.input.clone() {
        for line in std::fs::read_to_string(path).unwrap().lines() {
            let j: J = serde_json::from_str(line).unwrap();
            let s: Vec<i64> = j["s"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
            open(c, &zero);
            for ty in 0..7 {
                ask(c, &s, j["x"].as_i64().unwrap(), ty);
            }
        }
        return;
    }
    for no in 0..c.n {
        // a list grown by inserting at the answered positions
        open(c, &zero);
        let ty = no % 7;
        let mut span = *c.rng.pick(&[3, 8, 40]);
        let mut s: Vec<i64> = vec![];
        if no % 25 == 7 && ty < 4 {
            // a long list of many values
            let n = *c.rng.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1025]);
            span = 4000;
            s = (0..n).map(|_| c.rng.below(span) as i64 - 18).collect();
            s.sort();
            for x in [s[0] - 1, s[0], s[n - 1], s[n - 1] + 1].iter() {
                ask(c, &s, *x, ty);
            }
            for _ in 0..4 {
                let x = *c.rng.pick(&s);
                ask(c, &s, x, ty);
            }
        }
        if no % 25 == 3 {
            // a long list, and positions in it
            let n = *c.rng.pick(&[63, 64, 65, 127, 128, 200, 255, 256, 257, 300]);
            s = (0..n).map(|_| c.rng.below(span) as i64 - if ty == 6 { 0 } else { 18.min(span as i64 / 2) }).collect();
            s.sort();
        }
        for _ in 0..c.rng.range(1, 24) {
            let x = c.rng.below(span) as i64 - if ty == 6 { 0 } else { 18.min(span as i64 / 2) };
            match ask(c, &s, x, ty) {
                Some(p) if p <= s.len() => s.insert(p, x),
                _ => break,
            }
        }
    }
}

/// C29: digests.
fn digest(c: &mut Ctx, b: &[u8]) {
    c.case(json!({}));
    c.op(json!({"f": "sha1", "b": bytes(b)}), || {
        let mut v = vec![Sha1Hash::update(b)];
        // from another place in memory, and again
        let mut far = vec![0x80; b.len() + 3];
        far[1..b.len() + 1].copy_from_slice(b);
        v.push(Sha1Hash::update(&far[1..b.len() + 1]));
        v.push(Sha1Hash::update(b));
        if b.len() == 4 {
            v.push(Sha1Hash::from_address(&IpAddr::from([b[0], b[1], b[2], b[3]])));
        }
        if b.len() == 16 {
            let mut o = [0u8; 16];
            o.copy_from_slice(b);
            v.push(Sha1Hash::from_address(&IpAddr::from(o)));
        }
        json!({"k": "ok", "v": v.iter().map(|x| bytes(x)).collect::<Vec<_>>()})
    });
}

pub fn sha1(c: &mut Ctx) {
    if let Some(p) = c.input.clone() {
        for l in std::fs::read_to_string(p).expect("input").lines() {
            let j: J = serde_json::from_str(l).expect("json");
            digest(c, &to_bytes(&j["b"]));
        }
        return;
    }
    for i in 0..c.n {
        let r = &mut c.rng;
        let n = match r.below(8) {
            _ if i % 600 == 17 => *r.pick(&[65535, 65536, 65537, 66000, 70001]),
            _ if i % 100 == 7 => *r.pick(&[4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769]),
            0 | 1 => 4,
            2 | 3 => 16,
            4 => r.range(50, 70),
            5 => 64 * r.range(1, 4) + r.below(12) - r.below(12),
            6 if i % 20 == 0 => r.range(1000, 5000),
            _ => r.below(150),
        };
        let mut b = if r.chance(1, 5) { vec![*r.pick(&[0, 0xff, 0x80]); n] } else { r.bytes(n) };
        if n == 16 && r.chance(1, 2) {
            // addresses with a meaning
            let p: &[u8] = *r.pick(&[&[0; 10][..], &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff], &[0xfe, 0x80, 0, 0, 0, 0, 0, 0],
                &[0, 0x64, 0xff, 0x9b, 0, 0, 0, 0, 0, 0, 0, 0], &[0x20, 0x02], &[0x20, 0x01, 0, 0], &[0xff, 0x02]]);
            b[..p.len()].copy_from_slice(p);
        }
        if n == 4 && r.chance(1, 3) {
            b[0] = *r.pick(&[0, 10, 127, 192, 224, 255]);
        }
        digest(c, &b);
    }
}

/// C36: clamped values, random numbers and bytes.
fn clamp_one(c: &mut Ctx, v: i64, lo: i64, hi: i64) {
    for ty in 0..7 {
        c.op(json!({"f": "clamp", "v": v, "lo": lo, "hi": hi, "ty": ty}), || {
            let k = |x: i64| (x + 100) as usize;
            let cl = |v: i64, lo: i64, hi: i64| common::clamp(v, lo, hi);
            let w = |x: i64| format!("w{:04}", x + 100);
            ok(J::from(match ty {
                0 => cl(v, lo, hi),
                1 => cl(v << 56, lo << 56, hi << 56) >> 56,
                2 => common::clamp(k(v), k(lo), k(hi)) as i64 - 100,
                3 => (common::clamp(v as f64 / 8.0, lo as f64 / 8.0, hi as f64 / 8.0) * 8.0) as i64,
                4 => common::clamp(w(v), w(lo), w(hi))[1..].parse::<i64>().unwrap() - 100,
                5 => common::clamp(k(v) as u8, k(lo) as u8, k(hi) as u8) as i64 - 100,
                _ => (common::clamp((v as f32).exp2(), (lo as f32).exp2(), (hi as f32).exp2())).log2().round() as i64,
            }))
        });
    }
}

pub fn bounds(c: &mut Ctx) {
    if let Some(p) = c.input.clone() {
        for l in std::fs::read_to_string(p).expect("input").lines() {
            let j: J = serde_json::from_str(l).expect("json");
            c.case(json!({}));
            clamp_one(c, j["v"].as_i64().unwrap(), j["lo"].as_i64().unwrap(), j["hi"].as_i64().unwrap());
        }
        return;
    }
    for i in 0..c.n {
        c.case(json!({}));
        match i % 5 {
            0 => {
                let n = *c.rng.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 64]);
                c.op(json!({"f": "draw", "n": n}), || {
                    let s: std::collections::BTreeSet<usize> = (0..60 * n).map(|_| common::random::random_usize(n)).collect();
                    json!({"k": "ok", "vals": s})
                });
            }
            1 => {
                let r = &mut c.rng;
                let n = match r.below(4) {
                    0 => usize::MAX - r.below(3),
                    1 => 1usize << r.range(7, 63),
                    2 => (1usize << r.range(7, 63)) + 1,
                    _ => (r.u64() >> r.below(50)) as usize + 2,
                };
                c.op(json!({"f": "far", "bits": 64 - n.leading_zeros()}), || {
                    let v: Vec<usize> = (0..80).map(|_| common::random::random_usize(n)).collect();
                    let (all, any) = v.iter().fold((usize::MAX, 0), |(a, o), x| (a & x, o | x));
                    let steady = (0..63 - n.leading_zeros()).filter(|b| (all >> b) & 1 == 1 || (any >> b) & 1 == 0).count();
                    json!({"k": "ok", "steady": steady, "inside": v.iter().all(|x| *x < n), "low": v.iter().any(|x| *x < n / 2), "high": v.iter().any(|x| *x >= n / 2)})
                });
            }
            2 => {
                let n = match c.rng.below(3) {
                    0 => *c.rng.pick(&[0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 1024, 4095, 4096, 4097, 5000, 16385, 65535, 65536, 65537, 70000]),
                    _ => c.rng.below(200),
                };
                let mark = c.rng.byte();
                c.op(json!({"f": "fill", "n": n}), || {
                    let mut same = vec![true; n];
                    let mut beyond = 0;
                    let mut first: Vec<u8> = vec![];
                    let mut few = vec![];
                    for i in 0..60 {
                        let mut b = vec![mark; n + 8];
                        common::random::fill_bytes(&mut b[4..n + 4]);
                        beyond += b[..4].iter().chain(&b[n + 4..]).filter(|x| **x != mark).count();
                        if i == 0 {
                            first = b[4..n + 4].to_vec();
                        }
                        for j in 0..n {
                            same[j] &= first[j] == b[4 + j];
                        }
                        // places that always agree with each other
                        few.push(b[4..n + 4].iter().take(300).cloned().collect::<Vec<u8>>());
                    }
                    let m = n.min(300);
                    let tied: usize = (0..m).map(|j| (0..j).filter(|&i| few.iter().all(|x| x[i] == x[j])).count()).sum();
                    json!({"k": "ok", "tied": tied, "stuck": same.iter().filter(|x| **x).count(), "beyond": beyond})
                });
            }
            3 if i % 10 == 3 => {
                let n = c.rng.range(40, 60);
                c.op(json!({"f": "seeds", "n": n}), || {
                    let all: Vec<[u8; 32]> = (0..n).map(|_| common::ed25519::create_seed()).collect();
                    let s: std::collections::BTreeSet<[u8; 32]> = all.iter().cloned().collect();
                    let stuck = (0..32).filter(|&j| all.iter().all(|x| x[j] == all[0][j])).count();
                    // places that always agree with each other
                    let tied: usize = (0..32).map(|j| (0..j).filter(|&i| all.iter().all(|x| x[i] == x[j])).count()).sum();
                    json!({"k": "ok", "distinct": s.len(), "stuck": stuck, "tied": tied})
                });
            }
            _ => {
                let r = &mut c.rng;
                let (a, b) = (r.below(121) as i64 - 60, r.below(121) as i64 - 60);
                let v = match r.below(4) {
                    0 => a,
                    1 => b,
                    _ => r.below(127) as i64 - 63,
                };
                clamp_one(c, v, a.min(b), a.max(b));
            }
        }
    }
}
