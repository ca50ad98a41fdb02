//! Bencode drivers: values, inputs, limits, conversions and accessors.

use crate::rec::*;
use bencode::{Value, ValueRef};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

/// The harness' own picture of a bencode value.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    I(i64),
    S(Vec<u8>),
    L(Vec<T>),
    D(BTreeMap<String, T>),
}

impl T {
    pub fn json(&self) -> J {
        match self {
            T::I(n) => json!({"t": "i", "n": bytes(n.to_string().as_bytes())}),
            T::S(b) => json!({"t": "s", "b": bytes(b)}),
            T::L(l) => json!({"t": "l", "l": l.iter().map(|x| x.json()).collect::<Vec<_>>()}),
            T::D(d) => json!({"t": "d", "d": d.iter().map(|(k, v)|
                json!({"k": bytes(k.as_bytes()), "v": v.json()})).collect::<Vec<_>>()}),
        }
    }
    pub fn own(&self) -> Value {
        match self {
            T::I(n) => Value::Int(*n),
            T::S(b) => Value::Bytes(b.clone()),
            T::L(l) => Value::List(l.iter().map(|x| x.own()).collect()),
            T::D(d) => Value::Dict(d.iter().map(|(k, v)| (k.clone(), v.own())).collect()),
        }
    }
    pub fn bor(&self) -> ValueRef<'_> {
        match self {
            T::I(n) => ValueRef::Int(*n),
            T::S(b) => ValueRef::Bytes(b),
            T::L(l) => ValueRef::List(l.iter().map(|x| x.bor()).collect()),
            T::D(d) => ValueRef::Dict(d.iter().map(|(k, v)| (&k[..], v.bor())).collect()),
        }
    }
    /// The harness' own encoder. `loose` lets it use tolerated spellings.
    pub fn write(&self, o: &mut Vec<u8>, loose: &mut Option<&mut Rng>) {
        let zeros = |o: &mut Vec<u8>, l: &mut Option<&mut Rng>| {
            if let Some(r) = l {
                if r.chance(1, 8) {
                    let n = r.range(1, 3);
                    o.extend(vec![b'0'; n]);
                }
            }
        };
        let st = |o: &mut Vec<u8>, s: &[u8], l: &mut Option<&mut Rng>| {
            zeros(o, l);
            o.extend(s.len().to_string().bytes());
            o.push(b':');
            o.extend(s);
        };
        match self {
            T::I(n) => {
                o.push(b'i');
                let s = n.to_string();
                let (sign, d) = if let Some(x) = s.strip_prefix('-') { ("-", x) } else { ("", &s[..]) };
                let mut sign = sign.to_string();
                if let Some(r) = loose {
                    if sign.is_empty() && r.chance(1, 10) {
                        sign = if *n == 0 && r.chance(1, 2) { "-".into() } else { "+".into() };
                    }
                }
                o.extend(sign.bytes());
                zeros(o, loose);
                o.extend(d.bytes());
                o.push(b'e');
            }
            T::S(b) => st(o, b, loose),
            T::L(l) => {
                o.push(b'l');
                for x in l {
                    x.write(o, loose);
                }
                o.push(b'e');
            }
            T::D(d) => {
                o.push(b'd');
                let mut items: Vec<(&String, &T)> = d.iter().collect();
                let mut dups: Vec<T> = vec![];
                if let Some(r) = loose {
                    if r.chance(1, 3) {
                        for i in (1..items.len()).rev() {
                            items.swap(i, r.below(i + 1));
                        }
                    }
                    if !items.is_empty() && r.chance(1, 5) {
                        for i in 0..items.len() {
                            dups.push(T::I(i as i64));
                        }
                    }
                }
                for (k, v) in &items {
                    st(o, k.as_bytes(), loose);
                    v.write(o, loose);
                }
                for (i, v) in dups.iter().enumerate() {
                    let again = loose.as_mut().map(|r| r.chance(1, 2)).unwrap_or(false);
                    if again {
                        st(o, items[i].0.as_bytes(), loose);
                        v.write(o, loose);
                    }
                }
                o.push(b'e');
            }
        }
    }
}

pub fn own_json(v: &Value) -> J {
    match v {
        Value::Int(n) => T::I(*n).json(),
        Value::Bytes(b) => json!({"t": "s", "b": bytes(b)}),
        Value::List(l) => json!({"t": "l", "l": l.iter().map(own_json).collect::<Vec<_>>()}),
        Value::Dict(d) => json!({"t": "d", "d": d.iter().map(|(k, v)|
            json!({"k": bytes(k.as_bytes()), "v": own_json(v)})).collect::<Vec<_>>()}),
    }
}

pub fn bor_json(v: &ValueRef) -> J {
    match v {
        ValueRef::Int(n) => T::I(*n).json(),
        ValueRef::Bytes(b) => json!({"t": "s", "b": bytes(b)}),
        ValueRef::List(l) => json!({"t": "l", "l": l.iter().map(bor_json).collect::<Vec<_>>()}),
        ValueRef::Dict(d) => json!({"t": "d", "d": d.iter().map(|(k, v)|
            json!({"k": bytes(k.as_bytes()), "v": bor_json(v)})).collect::<Vec<_>>()}),
    }
}

const INTS: &[i64] = &[
    0, 1, -1, 2, 9, 10, -9, -10, 11, 99, 100, 101, -100, 255, 256, 999, 1000, 65535, 65536,
    2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296,
    999999999999999999, 1000000000000000000, -999999999999999999, -1000000000000000000,
    9223372036854775807, 9223372036854775806, -9223372036854775807, -9223372036854775808,
];

pub fn gen_int(r: &mut Rng) -> i64 {
    match r.below(4) {
        0 | 1 => *r.pick(INTS),
        2 => {
            let bits = r.range(0, 63);
            let v = (r.u64() >> bits) as i64;
            if r.chance(1, 2) { v } else { v.wrapping_neg() }
        }
        _ => r.below(2000) as i64 - 1000,
    }
}

pub fn gen_str(r: &mut Rng, big: bool) -> Vec<u8> {
    let len = match r.below(12) {
        0 | 1 => 0,
        2 | 3 => 1,
        4 => r.range(2, 8),
        5 => r.range(8, 12),
        6 => *r.pick(&[9, 10, 11, 19, 20, 21, 31, 32, 33, 63, 64, 65]),
        7 if big => *r.pick(&[98, 99, 100, 101, 127, 128, 129, 255, 256, 257]),
        _ => r.range(0, 6),
    };
    if r.chance(1, 12) {
        // with something in front or behind that is often taken for noise
        let x = *r.pick(&[&b"\xef\xbb\xbf"[..], b" ", b"\n", b"\r\n", b"\0", b"\t", b"/", b"\\", b"\"", b"'", b"%", b"+", b"#", b";", b"\xff\xfe",
            b"0x", b"\xc2\xa0", b"\xe2\x80\x8b", b"\x7f", b"\x1b", b"\xef\xbf\xbd"]);
        let s = r.bytes(len.min(6));
        return match r.below(3) {
            0 => [x, &s].concat(),
            1 => [&s, x].concat(),
            _ => x.to_vec(),
        };
    }
    match r.below(5) {
        0 => r.bytes(len),
        1 => (0..len).map(|_| *r.pick(b"0123456789:eild-")).collect(),
        2 => (0..len).map(|_| *r.pick(b"abc")).collect(),
        3 => {
            let mut v = vec![];
            while v.len() < len {
                v.extend(gen_char(r).to_string().bytes());
            }
            v
        }
        _ => (0..len).map(|_| *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, b'e', b':', b'0'])).collect(),
    }
}

pub fn gen_char(r: &mut Rng) -> char {
    match r.below(8) {
        0..=3 => (b'a' + r.below(26) as u8) as char,
        4 => (r.below(128) as u8) as char,
        5 => *r.pick(&['\u{80}', '\u{e9}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}']),
        _ => char::from_u32(r.below(0x3000) as u32).unwrap_or('x'),
    }
}

pub fn gen_key(r: &mut Rng) -> String {
    match r.below(6) {
        0 => r.pick(&["", "a", "aa", "ab", "b", "A", "B", "a\0", "\0", "0", "1", "10", "é", "z", "zz", "Z", "e", "i", ":"]).to_string(),
        1 => r.pick(&["info", "length", "name", "pieces", "piece length", "announce", "files", "path"]).to_string(),
        2 if r.chance(1, 8) => String::from_utf8_lossy(&gen_str(r, false)).into_owned(),
        _ => {
            let n = if r.chance(1, 40) { *r.pick(&[8, 9, 10, 16, 31, 33, 64, 65, 99, 100, 101, 127, 128, 130, 255, 256, 257]) } else { r.below(5) };
            if n > 5 && r.chance(1, 3) {
                // of one character, perhaps with one that differs
                let one = gen_char(r);
                let mut v = vec![one; n];
                let i = r.below(n);
                v[i] = gen_char(r);
                return v.into_iter().collect();
            }
            (0..n).map(|_| gen_char(r)).collect()
        }
    }
}

pub fn gen_tree(r: &mut Rng, depth: usize, width: usize, big: bool) -> T {
    let k = if depth == 0 { r.below(2) } else { r.below(5) };
    match k {
        0 => T::I(gen_int(r)),
        1 => T::S(gen_str(r, big)),
        2 | 3 => {
            let n = r.below(width + 1);
            T::L((0..n).map(|_| gen_tree(r, depth - 1, width, big)).collect())
        }
        _ => {
            let n = r.below(width + 1);
            T::D((0..n).map(|_| (gen_key(r), gen_tree(r, depth - 1, width, big))).collect())
        }
    }
}

/// Values of unusual size: long strings, many members, deep nesting.
fn gen_large(r: &mut Rng, i: usize) -> T {
    match i % 12 {
        0 => T::S(r.bytes(1000)),
        1 => { let n = *r.pick(&[9999, 10000, 10001]); T::S(r.bytes(n)) }
        2 => T::L((0..700).map(|_| T::I(gen_int(r))).collect()),
        3 => T::D((0..300).map(|i| (format!("{}", i * 7), T::I(i))).collect()),
        4 => {
            let mut t = T::I(7);
            for _ in 0..105 {
                t = T::L(vec![t]);
            }
            t
        }
        5 => {
            let mut t = T::S(vec![]);
            for i in 0..60 {
                t = if i % 2 == 0 { T::D(vec![(gen_key(r), t)].into_iter().collect()) } else { T::L(vec![T::I(1), t, T::S(vec![b'e'])]) };
            }
            t
        }
        6 => T::L((0..400).map(|_| T::S(vec![])).collect()),
        7 => T::D((0..200).map(|_| (gen_key(r), T::L(vec![]))).collect()),
        8 => { let n = *r.pick(&[65535, 65536, 65537]); T::L(vec![T::S(r.bytes(n)), T::I(1)]) }
        9 => T::D(vec![("x".repeat(r.range(995, 1005)), T::S(vec![]))].into_iter().collect()),
        10 => T::D((0..40).map(|i| ("k".repeat(i), T::D((0..3).map(|j| (format!("{}", j), T::I(j))).collect()))).collect()),
        _ => T::L((0..30).map(|_| gen_tree(r, 2, 4, true)).collect()),
    }
}

fn dec_own(b: &[u8]) -> J {
    guard(|| match Value::decode(b) {
        Ok(v) => ok(own_json(&v)),
        Err(e) => err(e),
    })
}

fn dec_bor(b: &[u8]) -> J {
    guard(|| match ValueRef::decode(b) {
        Ok(v) => ok(bor_json(&v)),
        Err(e) => err(e),
    })
}

/// C01 ("rt"), C02 ("canon"): encode values, decode the encodings.
pub fn encode(c: &mut Ctx, f: &str) {
    let n = c.n;
    let mut trees = vec![T::S(vec![]), T::L(vec![]), T::D(BTreeMap::new()), T::L(vec![T::S(vec![])]),
        T::D(vec![("".to_string(), T::S(vec![]))].into_iter().collect())];
    trees.extend(INTS.iter().map(|n| T::I(*n)));
    for b in 0..=255u8 {
        trees.push(T::S(vec![b]));
    }
    for i in 0..(12 * if c.thorough { 6 } else { 1 }) {
        trees.push(gen_large(&mut c.rng, i));
    }
    while trees.len() < n {
        let d = c.rng.below(5);
        let w = c.rng.range(1, 5);
        let t = gen_tree(&mut c.rng, d, w, true);
        trees.push(t);
    }
    for t in trees {
        c.case(json!({}));
        one_encode(c, &t, f);
    }
    deeper(c, "flat", c.n / 200, false);
}

fn one_encode(c: &mut Ctx, t: &T, f: &str) {
    c.op(json!({"f": f, "v": t.json()}), || {
        let own = t.own();
        let bor = t.bor();
        let ob = own.to_vec();
        let bb = bor.to_vec();
        let mut via = vec![];
        own.encode(&mut via).unwrap();
        let mut via2 = vec![];
        bor.encode(&mut via2).unwrap();
        let text = String::from_utf8(ob.clone()).is_ok();
        json!({"k": "ok",
            "own": bytes(&ob), "bor": bytes(&bb), "same": via == ob && via2 == bb,
            "oo": dec_own(&ob), "ob": dec_bor(&ob), "bo": dec_own(&bb), "bb": dec_bor(&bb),
            "eq": Value::decode(&ob).map(|v| v == own).unwrap_or(false)
                && ValueRef::decode(&bb).map(|v| v == bor).unwrap_or(false),
            "text": text,
            "disp": if text { bytes(own.to_string().as_bytes()) } else { J::Array(vec![]) },
            "dispb": if text { bytes(bor.to_string().as_bytes()) } else { J::Array(vec![]) },
        })
    });
}

/// Re-encoding of decoded inputs (C02, fixed point).
pub fn reencode(c: &mut Ctx) {
    for _ in 0..c.n {
        let d = c.rng.below(4);
        let w = c.rng.range(1, 5);
        let t = gen_tree(&mut c.rng, d, w, false);
        let mut b = vec![];
        t.write(&mut b, &mut Some(&mut c.rng));
        c.case(json!({}));
        c.op(json!({"f": "re", "in": bytes(&b)}), || {
            let (o1, o2) = match Value::decode(&b) {
                Ok(v) => {
                    let e = v.to_vec();
                    let e2 = Value::decode(&e).map(|v| v.to_vec()).unwrap_or_default();
                    (e, e2)
                }
                Err(e) => return err(e),
            };
            let (b1, b2) = match ValueRef::decode(&b) {
                Ok(v) => {
                    let e = v.to_vec();
                    let e2 = ValueRef::decode(&e).map(|v| v.to_vec()).unwrap_or_default();
                    (e, e2)
                }
                Err(e) => return err(e),
            };
            json!({"k": "ok", "o1": bytes(&o1), "o2": bytes(&o2), "b1": bytes(&b1), "b2": bytes(&b2)})
        });
    }
}

fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    const ALPH: &[u8] = b"0123456789:eild-+ \x00\x80\xff\xc3\xa9x";
    for _ in 0..r.range(1, 3) {
        let n = b.len();
        match r.below(8) {
            0 if n > 0 => {
                let i = r.below(n);
                b[i] = *r.pick(ALPH);
            }
            1 => {
                let i = r.below(n + 1);
                b.insert(i, *r.pick(ALPH));
            }
            2 if n > 0 => {
                let i = r.below(n);
                b.remove(i);
            }
            3 if n > 0 => {
                let i = r.below(n);
                b.truncate(i);
            }
            4 if n > 0 => {
                let i = r.below(n);
                let j = r.range(i, n - 1);
                let part = b[i..=j].to_vec();
                let k = r.below(n + 1);
                for (o, x) in part.into_iter().enumerate() {
                    b.insert(k + o, x);
                }
            }
            5 => b.push(*r.pick(ALPH)),
            6 if n > 0 => {
                // change a number
                let pos: Vec<usize> = (0..n).filter(|&i| b[i].is_ascii_digit()).collect();
                if !pos.is_empty() {
                    let i = *r.pick(&pos);
                    let s = r.pick(&["0", "1", "9", "00", "10", "-1", "+1", "9223372036854775807", "9223372036854775808",
                        "18446744073709551615", "18446744073709551617", "4294967296", "99999999999999999999999"]);
                    b.splice(i..=i, s.bytes());
                }
            }
            _ if n > 0 => {
                let i = r.below(n);
                b[i] = r.byte();
            }
            _ => {}
        }
    }
}

pub const CORPUS: &[&str] = &[
    "", "i", "e", "d", "l", ":", "0", "0:", "1:", "00:", "1:a", "01:a", "i0e", "i-0e", "i+0e", "i+5e", "i-5e", "ie", "i-e", "i+e",
    "i--1e", "i1-e", "i 1e", "i1 e", "i1", "i007e", "i9223372036854775807e", "i9223372036854775808e",
    "i-9223372036854775808e", "i-9223372036854775809e", "i00000000000000000000009223372036854775807e",
    "le", "de", "lle", "ldee", "d1:ae", "d1:ai1ee", "d1:ai1e1:ai2ee", "di1ei2ee", "dlei1ee", "ddei1ee", "d1:al1:bee",
    "l0:e", "l0:0:e", "d0:0:e", "d0:0:0:0:e", "le ", "lei1e", "i1ei1e", "0:0:", "1:a1:b", "dee", "lee", "-1:a", "+1:a", "1 :a",
    "9223372036854775807:a", "9223372036854775808:a", "18446744073709551615:a", "18446744073709551614:aa", "4294967297:a",
    "2:a", "3:ab", "2:ab", "2:abc", "l2:abe", "l3:abe", "d1:b0:1:a0:e", "d2:\u{e9}0:e", "d1:a0:1:b0:1:a1:xe",
    "llllllllee", "lllleeee", "d1:ad1:bd1:cleeee", "d1:", "d1:a", "l1", "l1:", "l1:a", "i1x", "i1xe", "1x:a", "x", "l:e", "lx",
    "l i1ee", "i\u{661}e", "1\u{661}:a", "d4:\u{feff}ai1ee", "d3:\u{feff}le4:\u{feff}a0:e", "d1:a1:b1:c1:de1:e", "li1e1:ad1:b0:ee0:",
];

pub fn gen_input(c: &mut Ctx, i: usize) -> Vec<u8> {
    if i < CORPUS.len() {
        return CORPUS[i].as_bytes().to_vec();
    }
    let r = &mut c.rng;
    let mut b = vec![];
    match r.below(10) {
        0 => {
            let n = r.below(10);
            b = (0..n).map(|_| *r.pick(b"01259:eild-+a")).collect();
        }
        1 => {
            let n = r.below(24);
            b = (0..n).map(|_| *r.pick(b"0123:eeilda")).collect();
        }
        2 => {
            let n = r.below(24);
            b = r.bytes(n);
        }
        3 | 4 => {
            let d = r.below(5);
            let w = r.range(1, 5);
            gen_tree(r, d, w, false).write(&mut b, &mut Some(r));
        }
        5 => {
            // dictionaries with odd keys
            b.push(b'd');
            for _ in 0..r.below(4) {
                match r.below(6) {
                    0 => {
                        let k = gen_str(r, false);
                        T::S(k).write(&mut b, &mut None);
                    }
                    1 => gen_tree(r, 1, 2, false).write(&mut b, &mut None),
                    2 => {
                        let bad: &[&[u8]] = &[b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe9", b"\xc3",
                            b"\xe2\x82", b"\xf0\x9f\x98", b"\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xf5\x80\x80\x80", b"a\xc3\xa9\xff"];
                        T::S(r.pick(bad).to_vec()).write(&mut b, &mut None);
                    }
                    _ => T::S(gen_key(r).into_bytes()).write(&mut b, &mut None),
                }
                if !r.chance(1, 10) {
                    gen_tree(r, 1, 2, false).write(&mut b, &mut None);
                }
            }
            b.push(b'e');
        }
        6 => {
            // nesting
            let n = r.range(1, 40);
            let mut close = 0;
            for _ in 0..n {
                if r.chance(1, 3) {
                    b.extend(b"d1:k");
                } else {
                    b.push(b'l');
                }
                close += 1;
                if r.chance(1, 4) && close > 1 && b.last() == Some(&b'l') {
                    b.push(b'e');
                    close -= 1;
                    if b[..b.len() - 1].ends_with(b"d1:kl") {
                        b.push(b'e');
                        close -= 1;
                    }
                }
            }
            if b.ends_with(b"d1:k") {
                b.extend(b"0:");
            }
            for _ in 0..close {
                b.push(b'e');
            }
        }
        _ => {
            let d = r.below(4);
            let w = r.range(1, 4);
            gen_tree(r, d, w, false).write(&mut b, &mut Some(r));
            mutate(r, &mut b);
        }
    }
    if r.chance(1, 24) {
        b = among(r, &b);
    }
    b
}

/// The input among many others, or far down.
fn among(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let b = if r.chance(1, 2) { r.pick(CORPUS).as_bytes() } else { b };
    let n = *r.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]);
    let after = if r.chance(1, 2) { r.below(4) } else { 0 };
    let mut v = vec![];
    match r.below(5) {
        0 => {
            let one: &[u8] = r.pick(&[&b"0:"[..], b"1:k", b"i1e", b"le"]);
            v.push(b'l');
            v.extend(std::iter::repeat(one).take(n).flatten());
            v.extend(b);
            v.extend(std::iter::repeat(one).take(after).flatten());
        }
        1 => {
            // without the container
            v.extend(std::iter::repeat(b"1:k").take(n).flatten());
            v.extend(b);
        }
        2 => {
            v.push(b'd');
            for i in 0..n {
                v.extend(format!("4:k{:03}i{}e", i, i).bytes());
            }
            v.extend(b"1:z");
            v.extend(b);
            for i in 0..after {
                v.extend(format!("2:z{}0:", i).bytes());
            }
        }
        3 => {
            // the same keys again and again
            let m = *r.pick(&[n / 2 + 1, n - 1, n, 3]);
            v.push(b'd');
            for i in 0..n {
                let j = if r.chance(1, 2) { i % m } else { r.below(m) };
                v.extend(format!("4:k{:03}i{}e", j, i).bytes());
            }
        }
        _ => {
            let n = n.min(90);
            for _ in 0..n {
                v.push(b'l');
            }
            v.extend(b);
            for _ in 0..n - 1 {
                v.push(b'e');
            }
        }
    }
    if !r.chance(1, 10) {
        v.push(b'e');
    }
    v
}

/// Small inputs that are right or wrong, behind many others.
fn crowded() -> Vec<Vec<u8>> {
    let mut all = vec![];
    for n in &[63usize, 64, 65, 130, 256] {
        for one in &[&b"0:"[..], b"1:ki1e"] {
            for b in &[&b"d1:ae"[..], b"d1:a0:1:be", b"de", b"di1e0:e", b"d1:k0:e", b"d1:b0:1:a0:e", b"lee", b"i-e", b"2:k", b"l", b"d2:\xff\xffle1:bi9ee"] {
                for open in &[&b"l"[..], b"d", b""] {
                    let mut v = open.to_vec();
                    v.extend(std::iter::repeat(*one).take(*n).flatten());
                    v.extend(*b);
                    if !open.is_empty() {
                        v.push(b'e');
                    }
                    all.push(v);
                }
            }
        }
    }
    all
}

/// Every byte in every place of small inputs, instead of what is there and
/// before it.
fn byte_sweep() -> Vec<Vec<u8>> {
    let mut all = vec![];
    for base in &[&b"i5e"[..], b"2:ab", b"le", b"de", b"l1:ae", b"d1:ki1ee"] {
        for p in 0..=base.len() {
            for x in 0..=255u8 {
                let mut b = base.to_vec();
                b.insert(p, x);
                all.push(b);
                if p < base.len() && base[p] != x {
                    let mut b = base.to_vec();
                    b[p] = x;
                    all.push(b);
                }
            }
        }
    }
    all
}

pub fn dec_with(b: &[u8], dl: Option<usize>, il: Option<usize>) -> (J, J) {
    let plain = dl.is_none() && il.is_none();
    let own = guard(|| match if plain { Value::decode(b) } else { Value::decode_with_limits(b, dl, il) } {
        Ok(v) => ok(own_json(&v)),
        Err(e) => err(e),
    });
    let bor = guard(|| match if plain { ValueRef::decode(b) } else { ValueRef::decode_with_limits(b, dl, il) } {
        Ok(v) => ok(bor_json(&v)),
        Err(e) => err(e),
    });
    (own, bor)
}

/// C03: decode inputs without limits.
pub fn decode(c: &mut Ctx) {
    for i in 0..c.n {
        let b = gen_input(c, i);
        c.case(json!({}));
        one_decode(c, &b, None, None);
    }
    for b in byte_sweep() {
        c.case(json!({}));
        one_decode(c, &b, None, None);
    }
    let k = c.rng.below(4);
    for (i, b) in crowded().iter().enumerate() {
        if c.thorough || i % 3 == 0 || i % 4 == k {
            c.case(json!({}));
            one_decode(c, b, None, None);
        }
    }
    // long inputs
    for i in 0..if c.thorough { 60 } else { 12 } {
        let t = gen_large(&mut c.rng, i);
        if i % 12 == 8 && !c.thorough {
            continue;
        }
        let mut b = vec![];
        t.write(&mut b, &mut None);
        if i % 3 == 1 {
            b.pop();
        }
        c.case(json!({}));
        one_decode(c, &b, None, None);
    }
    deeper(c, "flat", c.n / 150, false);
}

pub fn one_decode(c: &mut Ctx, b: &[u8], dl: Option<usize>, il: Option<usize>) {
    let parse = match std::str::from_utf8(b) {
        Ok(s) if dl.is_none() && il.is_none() => Some(s.to_string()),
        _ => None,
    };
    c.op(json!({"f": "dec", "in": bytes(b), "dl": lim(dl), "il": lim(il)}), || {
        let (own, bor) = dec_with(b, dl, il);
        // FromStr must do the same as decode
        let fs = match &parse {
            Some(s) => guard(|| match s.parse::<Value>() {
                Ok(v) => ok(own_json(&v)),
                Err(e) => err(e),
            }),
            None => own.clone(),
        };
        json!({"k": "ok", "own": own, "bor": bor, "fs": fs})
    });
}

/// Containers in each other, too deep to be written down as a value: the
/// outcome is recorded as an encoding.
fn gen_deep(r: &mut Rng) -> (Vec<u8>, usize) {
    let n = *r.pick(&[100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513]);
    let mut b: Vec<u8> = vec![];
    let mut close: Vec<&[u8]> = vec![];
    let kind = r.below(4);
    for _ in 0..n {
        match if kind == 3 { r.below(4) } else { kind } {
            0 => {
                b.push(b'l');
                close.push(b"e");
            }
            1 => {
                b.extend(b"d1:k");
                close.push(b"e");
            }
            2 => {
                b.extend(b"li1e");
                close.push(b"0:e");
            }
            _ => {
                b.extend(b"d0:i-1e1:x");
                close.push(b"1:yle e");
            }
        }
    }
    b.extend(r.pick(&[&b"0:"[..], b"i1e", b"de", b"le"]).iter());
    for x in close.iter().rev() {
        b.extend(x.iter().filter(|x| **x != b' '));
    }
    if r.chance(1, 10) {
        b.pop();
    }
    (b, n)
}

fn flat(c: &mut Ctx, f: &str, b: &[u8], dl: Option<usize>, il: Option<usize>) {
    c.case(json!({}));
    c.op(json!({"f": f, "in": bytes(b), "dl": lim(dl), "il": lim(il)}), || {
        let plain = dl.is_none() && il.is_none();
        let o = if plain { Value::decode(b) } else { Value::decode_with_limits(b, dl, il) };
        let r = if plain { ValueRef::decode(b) } else { ValueRef::decode_with_limits(b, dl, il) };
        let mut enc = vec![];
        if let (Ok(o), Ok(r)) = (&o, &r) {
            let (ro, or) = (r.to_owned(), o.as_ref());
            enc = vec![ro.to_vec(), or.to_vec()];
            if ro != *o || or != *r || o.clone() != *o || o.to_string() != r.to_string() {
                enc.push(vec![]);
            }
        }
        let own = match o {
            Ok(v) => ok(bytes(&v.to_vec())),
            Err(e) => err(e),
        };
        let bor = match r {
            Ok(v) => ok(bytes(&v.to_vec())),
            Err(e) => err(e),
        };
        json!({"k": "ok", "own": own, "bor": bor, "enc": enc.iter().map(|x| bytes(x)).collect::<Vec<_>>()})
    });
}

/// Limits as the specification sees them: none is -1, and those which no
/// input can reach are all alike (TLC has 32-bit numbers).
fn lim(l: Option<usize>) -> i64 {
    l.map(|x| x.min(2_000_000_000) as i64).unwrap_or(-1)
}

const HUGE: &[usize] = &[usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, u32::MAX as usize, 1 << 32, (1 << 32) + 1, 1 << 31, u16::MAX as usize + 1, 65535];

fn near(r: &mut Rng, x: usize) -> Option<usize> {
    match r.below(9) {
        0 => None,
        1 => Some(0),
        2 => Some(r.below(6)),
        3 => Some(x + 1),
        4 => Some(x),
        5 => Some(x.saturating_sub(1)),
        6 => Some(x.saturating_sub(2)),
        7 => Some(*r.pick(HUGE)),
        _ => Some(*r.pick(&[100, 255, 256, 257, 1000, 1_000_000])),
    }
}

/// Decoding, converting and encoding values nested deeply.
fn deeper(c: &mut Ctx, f: &str, n: usize, limited: bool) {
    for _ in 0..n {
        let (b, _) = gen_deep(&mut c.rng);
        let (d, i) = measure(&b);
        let r = &mut c.rng;
        let (dl, il) = if limited { (near(r, d), near(r, i)) } else { (None, None) };
        flat(c, f, &b, dl, il);
    }
}

/// A key that differs little.
fn near_key(r: &mut Rng, k: &str) -> String {
    let mut x: Vec<char> = k.chars().collect();
    let c = *r.pick(&['\0', ' ', '\n', '.', '0', 'e', 'a', ':', '\u{301}', '\u{200b}', '/', '*']);
    match r.below(8) {
        0 | 1 => x.push(c),
        2 => x.insert(0, c),
        3 => drop(x.pop()),
        4 => return k.to_lowercase(),
        5 => return k.to_uppercase(),
        6 => return k.trim_matches(|c: char| c.is_whitespace() || c.is_control()).to_string(),
        _ if x.is_empty() => x.push(c),
        _ => {
            let i = r.below(x.len());
            x[i] = c;
        }
    }
    x.into_iter().collect()
}

/// C04: decode inputs with limits around the point where they start to bite.
pub fn limits(c: &mut Ctx) {
    for i in 0..c.n {
        let b = if c.rng.chance(1, 4) || i < CORPUS.len() {
            gen_input(c, i)
        } else {
            let mut b = vec![];
            let r = &mut c.rng;
            let d = r.below(7);
            let w = r.range(1, 4);
            let t = match r.below(100) {
                0 => gen_large(r, [2, 3, 4, 5, 6, 7, 10][i % 7]),
                _ => gen_tree(r, d, w, false),
            };
            t.write(&mut b, &mut Some(r));
            b
        };
        let (depth, items) = measure(&b);
        let r = &mut c.rng;
        let dl = near(r, depth);
        let il = near(r, items);
        c.case(json!({}));
        one_decode(c, &b, dl, il);
    }
    deeper(c, "flat", c.n / 100, true);
}

/// Rough depth and element count of an input, to aim limits at.
fn measure(b: &[u8]) -> (usize, usize) {
    let (mut i, mut d, mut md, mut n) = (0usize, 0usize, 0usize, 0usize);
    while i < b.len() {
        match b[i] {
            b'e' => {
                d = d.saturating_sub(1);
                i += 1;
            }
            b'l' | b'd' => {
                md = md.max(d);
                d += 1;
                n += 1;
                i += 1;
            }
            b'i' => {
                md = md.max(d);
                n += 1;
                while i < b.len() && b[i] != b'e' {
                    i += 1;
                }
                i += 1;
            }
            _ => {
                md = md.max(d);
                n += 1;
                let mut l = 0usize;
                while i < b.len() && b[i] != b':' {
                    if b[i].is_ascii_digit() {
                        l = l.saturating_mul(10).saturating_add((b[i] - b'0') as usize);
                    }
                    i += 1;
                }
                i = i.saturating_add(1).saturating_add(l);
            }
        }
    }
    (md, n.saturating_sub(1))
}

macro_rules! acc {
    ($v: expr, $key: expr, $i: expr, $j: expr) => {{
        let v = $v;
        let opt = |o: Option<J>| J::Array(o.into_iter().collect());
        let int = |o: Option<i64>| opt(o.map(|n| bytes(n.to_string().as_bytes())));
        let len = |o: Option<usize>| opt(o.map(|n| J::from(n)));
        let s = |o: Option<&str>| opt(o.map(|x| bytes(x.as_bytes())));
        json!({
            "is": [v.is_string(), v.is_int(), v.is_list(), v.is_dict()],
            "as_int": int(v.as_int()),
            "as_str": s(v.as_str()),
            "as_bytes": opt(v.as_bytes().map(bytes)),
            "as_list": opt(v.as_list().map(|l| J::Array(l.iter().map($j).collect()))),
            "into_list": opt(v.clone().into_list().map(|l| J::Array(l.iter().map($j).collect()))),
            "list_mut": opt(v.clone().as_list_mut().map(|l| J::Array(l.iter().map($j).collect()))),
            "as_dict": opt(v.as_dict().map(|d| J::Array(d.iter().map(|(k, x)| json!({"k": bytes(k.as_bytes()), "v": $j(x)})).collect()))),
            "into_dict": opt(v.clone().into_dict().map(|d| J::Array(d.iter().map(|(k, x)| json!({"k": bytes(k.as_bytes()), "v": $j(x)})).collect()))),
            "dict_mut": opt(v.clone().as_dict_mut().map(|d| J::Array(d.iter().map(|(k, x)| json!({"k": bytes(k.as_bytes()), "v": $j(x)})).collect()))),
            "list_len": len(v.list_len()),
            "dict_len": len(v.dict_len()),
            "find": opt(v.dict_find($key).map($j)),
            "find_int": opt(v.dict_find_int($key).map($j)),
            "find_int_value": int(v.dict_find_int_value($key)),
            "find_str": opt(v.dict_find_str($key).map($j)),
            "find_str_value": s(v.dict_find_str_value($key)),
            "find_list": opt(v.dict_find_list($key).map($j)),
            "find_list_value": opt(v.dict_find_list_value($key).map(|l| J::Array(l.iter().map($j).collect()))),
            "find_dict": opt(v.dict_find_dict($key).map($j)),
            "list_at": opt(v.list_at($i).map($j)),
            "list_string_value_at": s(v.list_string_value_at($i)),
            "list_int_value_at": int(v.list_int_value_at($i)),
        })
    }};
}

/// C05: owned and borrowed values side by side.
pub fn agree(c: &mut Ctx) {
    let sweep = byte_sweep();
    for i in 0..c.n + sweep.len() {
        let b = if i < sweep.len() {
            sweep[i].clone()
        } else if i % 97 == 7 {
            let t = gen_large(&mut c.rng, [0, 2, 3, 4, 5, 6, 7, 9, 10, 11][i / 97 % 10]);
            let mut b = vec![];
            let mut r = Rng::new(c.rng.u64());
            t.write(&mut b, &mut Some(&mut r));
            b
        } else if i % 2 == 0 {
            gen_input(c, (i - sweep.len()) / 2)
        } else {
            // a dictionary or list of small things, so that lookups hit
            let r = &mut c.rng;
            let n = r.below(6);
            let t = if r.chance(2, 3) {
                T::D((0..n).map(|_| (gen_key(r), gen_tree(r, 2, 3, false))).collect())
            } else {
                T::L((0..n).map(|_| gen_tree(r, 2, 3, false)).collect())
            };
            let mut b = vec![];
            t.write(&mut b, &mut Some(r));
            b
        };
        let r = &mut c.rng;
        let (dl, il) = if r.chance(1, 4) {
            let (d, i) = measure(&b);
            (near(r, d), near(r, i))
        } else {
            (None, None)
        };
        let mut keys: Vec<String> = vec!["".into(), "a".into(), gen_key(r)];
        if let Ok(Value::Dict(d)) = Value::decode(&b) {
            for _ in 0..3 {
                keys.extend(d.keys().cloned());
            }
            if !d.is_empty() && r.chance(1, 3) {
                // almost one of them
                let at = r.below(d.len());
                let k = d.keys().nth(at).unwrap();
                keys = vec![near_key(r, k)];
            }
        }
        let key = r.pick(&keys).clone();
        let idx = match r.below(12) {
            0 => *r.pick(HUGE),
            1 => r.below(700),
            _ => r.below(5),
        };
        c.case(json!({}));
        c.op(json!({"f": "pair", "in": bytes(&b), "dl": lim(dl), "il": lim(il), "key": bytes(key.as_bytes()), "i": lim(Some(idx))}), || {
            let (own, bor) = dec_with(&b, dl, il);
            let o = Value::decode_with_limits(&b, dl, il);
            let r = ValueRef::decode_with_limits(&b, dl, il);
            let (o, r) = match (o, r) {
                (Ok(o), Ok(r)) => (o, r),
                _ => return json!({"k": "ok", "own": own, "bor": bor, "both": false}),
            };
            let ro = r.to_owned();
            let or = o.as_ref();
            json!({"k": "ok", "own": own, "bor": bor, "both": true,
                "to_owned": own_json(&ro), "as_ref": bor_json(&or),
                "eq": ro == o && or == r && or.to_owned() == o && ro.as_ref() == r && o.clone() == o && r.clone() == r,
                "enc": [bytes(&o.to_vec()), bytes(&r.to_vec()), bytes(&ro.to_vec()), bytes(&or.to_vec())],
                "disp": o.to_string() == r.to_string() && ro.to_string() == or.to_string() && o.to_string() == or.to_string(),
                "ao": acc!(&o, &key, idx, own_json), "ar": acc!(&r, &key, idx, bor_json),
                "at": acc!(&ro, &key, idx, own_json), "af": acc!(&or, &key, idx, bor_json),
            })
        });
    }
    deeper(c, "flatpair", c.n / 100, false);
    deeper(c, "flatpair", c.n / 100, true);
}

fn blame<X>(r: Result<X, bencode::Error>) -> J {
    use bencode::Error;
    match r {
        Ok(_) => json!({"k": "ok"}),
        Err(e) => {
            let n = match e {
                Error::InvalidChar(c) | Error::ExpectedChar(c) => c as i64,
                _ => -1,
            };
            let name = format!("{:?}", e);
            let name = name.split('(').next().unwrap().to_string();
            json!({"k": "err", "e": name, "n": n, "io": format!("{:?}", std::io::Error::from(e).kind())})
        }
    }
}

fn one_why(c: &mut Ctx, b: &[u8], dl: Option<usize>, il: Option<usize>) {
    c.case(json!({}));
    c.op(json!({"f": "why", "in": bytes(b), "dl": lim(dl), "il": lim(il)}), || {
        let mut by = vec![blame(Value::decode_with_limits(b, dl, il)), blame(ValueRef::decode_with_limits(b, dl, il))];
        if dl.is_none() && il.is_none() {
            by.push(blame(Value::decode(b)));
            by.push(blame(ValueRef::decode(b)));
            if let Ok(s) = std::str::from_utf8(b) {
                by.push(blame(s.parse::<Value>()));
            }
        }
        json!({"k": "ok", "by": by})
    });
}

/// C33: what refused inputs are refused for.
pub fn why(c: &mut Ctx) {
    if let Some(p) = c.input.clone() {
        for line in std::fs::read_to_string(p).unwrap().lines() {
            let j: J = serde_json::from_str(line).unwrap();
            let l = |k: &str| j[k].as_i64().filter(|x| *x >= 0).map(|x| x as usize);
            one_why(c, &to_bytes(&j["in"]), l("dl"), l("il"));
        }
        return;
    }
    for b in byte_sweep() {
        one_why(c, &b, None, None);
    }
    for i in 0..c.n {
        let mut b = gen_input(c, i);
        let r = &mut c.rng;
        if i >= CORPUS.len() {
            match r.below(6) {
                // two faults
                0 | 1 => {
                    mutate(r, &mut b);
                    mutate(r, &mut b);
                }
                2 => {
                    let n = r.below(b.len() + 1);
                    b.truncate(n);
                }
                3 => {
                    let n = r.below(b.len() + 1);
                    b.insert(n, r.below(256) as u8);
                }
                _ => {}
            }
        }
        let (dl, il) = if r.chance(1, 2) {
            (None, None)
        } else {
            let (d, n) = measure(&b);
            (near(r, d), near(r, n))
        };
        one_why(c, &b, dl, il);
    }
}

/// Decodes the inputs listed in a file, for comparison with what TLC computed.
pub fn list(c: &mut Ctx) {
    let text = std::fs::read_to_string(c.input.clone().unwrap()).unwrap();
    for line in text.lines() {
        let j: J = serde_json::from_str(line).unwrap();
        let b = to_bytes(&j["in"]);
        let l = |k: &str| j[k].as_i64().filter(|x| *x >= 0).map(|x| x as usize);
        c.case(json!({}));
        one_decode(c, &b, l("dl"), l("il"));
    }
}

/// C03: one deeply nested list, decoded and dropped (may kill the process).
pub fn deep(c: &mut Ctx) {
    let n = c.n;
    let mut b = vec![b'l'; n];
    b.extend(vec![b'e'; n]);
    c.case(json!({}));
    let which = c.input.clone().unwrap_or_default();
    c.op(json!({"f": "deep", "n": n, "which": which}), || {
        let good = if which == "own" { Value::decode(&b).is_ok() } else { ValueRef::decode(&b).is_ok() };
        json!({"k": if good { "ok" } else { "err" }})
    });
}
