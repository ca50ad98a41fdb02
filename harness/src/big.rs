//! Values described by a shape and a size (spec/Big.tla).

use crate::rec::*;
use bencode::{Value, ValueRef};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

const SHAPES: &[&str] = &["ints", "empties", "text", "keys", "keylen", "nest", "dnest"];
const SIZES: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201,
    254, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097,
];
const BIG: &[usize] = &[8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537];
const HUGE: &[usize] = &[99999, 100000, 100001, 131071, 131072, 131073];
const GIANT: &[usize] = &[999999, 1000000, 1000001, 1048575, 1048576, 1048577];

fn ch(i: usize) -> u8 {
    b'a' + (i % 26) as u8
}

fn chars(n: usize) -> String {
    (0..n).map(|i| ch(i) as char).collect()
}

fn pad(i: usize) -> String {
    format!("{:07}", i)
}

/// Its encoding, written without the library.
fn input(sh: &str, n: usize) -> Vec<u8> {
    let mut b = vec![];
    match sh {
        "ints" => {
            b.push(b'l');
            for i in 0..n {
                b.extend(format!("i{}e", i).bytes());
            }
            b.push(b'e');
        }
        "empties" => {
            b.push(b'l');
            for _ in 0..n {
                b.extend(b"le");
            }
            b.push(b'e');
        }
        "text" => {
            b.extend(format!("{}:", n).bytes());
            b.extend(chars(n).bytes());
        }
        "keys" => {
            b.push(b'd');
            for i in 0..n {
                b.extend(format!("7:{}i{}e", pad(i), i).bytes());
            }
            b.push(b'e');
        }
        "keylen" => {
            b.extend(format!("d{}:", n).bytes());
            b.extend(chars(n).bytes());
            b.extend(b"i7ee");
        }
        "nest" => {
            b.extend(vec![b'l'; n]);
            b.extend(vec![b'e'; n]);
        }
        _ => {
            for _ in 1..n {
                b.extend(b"d0:");
            }
            b.push(b'd');
            b.extend(vec![b'e'; n]);
        }
    }
    b
}

macro_rules! build {
    ($v: ident, $sh: expr, $n: expr, $key: expr, $keys: expr, $text: expr) => {{
        let n: usize = $n;
        match $sh {
            "ints" => $v::with_list((0..n).map(|i| $v::with_int(i as i64)).collect()),
            "empties" => $v::with_list((0..n).map(|_| $v::with_list(vec![])).collect()),
            "text" => $v::with_str($text),
            "keys" => $v::with_dict((0..n).map(|i| ($key(&$keys[i]), $v::with_int(i as i64))).collect()),
            "keylen" => $v::with_dict(vec![($key($text), $v::with_int(7))].into_iter().collect()),
            "nest" => {
                let mut t = $v::with_list(vec![]);
                for _ in 1..n {
                    t = $v::with_list(vec![t]);
                }
                t
            }
            _ => {
                let mut t = $v::with_dict(BTreeMap::new());
                for _ in 1..n {
                    t = $v::with_dict(vec![($key(""), t)].into_iter().collect());
                }
                t
            }
        }
    }};
}

/// How many members the outermost has, and the first which is not right.
macro_rules! look {
    ($v: expr, $sh: expr, $n: expr) => {{
        let v = $v;
        let n: usize = $n;
        let mut bad = -1i64;
        let mut wrong = |i: usize| {
            if bad < 0 {
                bad = i as i64;
            }
        };
        let count = match $sh {
            "ints" => {
                for i in 0..n {
                    if v.list_int_value_at(i) != Some(i as i64) {
                        wrong(i);
                    }
                }
                if v.list_at(n).is_some() {
                    wrong(n);
                }
                v.list_len()
            }
            "empties" => {
                for i in 0..n {
                    if v.list_at(i).and_then(|x| x.list_len()) != Some(0) {
                        wrong(i);
                    }
                }
                v.list_len()
            }
            "text" => {
                let s = v.as_bytes().unwrap_or(b"");
                for i in 0..s.len() {
                    if s[i] != ch(i) {
                        wrong(i);
                    }
                }
                if v.as_str().map(|x| x.len()) != Some(n) {
                    wrong(n);
                }
                v.as_bytes().map(|x| x.len())
            }
            "keys" => {
                for i in 0..n {
                    if v.dict_find_int_value(&pad(i)) != Some(i as i64) {
                        wrong(i);
                    }
                }
                if v.dict_find(&pad(n)).is_some() {
                    wrong(n);
                }
                v.dict_len()
            }
            "keylen" => {
                if v.dict_find_int_value(&chars(n)) != Some(7) {
                    wrong(0);
                }
                v.dict_len()
            }
            "nest" => {
                let mut x = v;
                for i in 1..n {
                    if x.list_len() != Some(1) {
                        wrong(i);
                        break;
                    }
                    x = x.list_at(0).unwrap();
                }
                if x.list_len() != Some(0) {
                    wrong(n);
                }
                v.list_len()
            }
            _ => {
                let mut x = v;
                for i in 1..n {
                    match x.dict_find("") {
                        Some(y) if x.dict_len() == Some(1) => x = y,
                        _ => {
                            wrong(i);
                            break;
                        }
                    }
                }
                if x.dict_len() != Some(0) {
                    wrong(n);
                }
                v.dict_len()
            }
        };
        (count.map(|x| x as i64).unwrap_or(-1), bad)
    }};
}

fn refused(e: bencode::Error) -> J {
    let name = format!("{:?}", e);
    let name = name.split('(').next().unwrap().to_string();
    json!({"k": "err", "e": name, "io": format!("{:?}", std::io::Error::from(e).kind())})
}

fn lim(l: Option<usize>) -> i64 {
    l.map(|x| x.min(2_000_000_000) as i64).unwrap_or(-1)
}

/// The same with something wrong.
fn faulty(sh: &str, n: usize, fault: &str, at: usize) -> Vec<u8> {
    let mut b = input(sh, n);
    match fault {
        "" => {}
        "cut" => {
            b.pop();
        }
        "extra" => b.push(b'0'),
        "end" => b.push(b'e'),
        _ => {
            b = b"d".to_vec();
            for i in 0..n {
                let (k, v) = (format!("7:{}", pad(i)), format!("i{}e", i));
                match fault {
                    _ if i != at => b.extend((k + &v).bytes()),
                    "odd" => b.extend(k.bytes()),
                    "nokey" => b.extend(v.bytes()),
                    "intkey" => b.extend((v.clone() + &v).bytes()),
                    _ => {
                        b.extend(k.bytes());
                        *b.last_mut().unwrap() = 0xff;
                        b.extend(v.bytes());
                    }
                }
            }
            b.push(b'e');
        }
    }
    b
}

fn decoded(c: &mut Ctx, how: &str, sh: &str, n: usize, dl: Option<usize>, il: Option<usize>, fault: &str, at: usize) {
    let b = faulty(sh, n, fault, at);
    let small = if n <= 12 { bytes(&b) } else { bytes(b"") };
    c.case(json!({}));
    c.op(json!({"f": "big", "as": how, "sh": sh, "n": n, "dl": lim(dl), "il": lim(il), "fault": fault, "at": at}), || {
        let plain = dl.is_none() && il.is_none();
        let o = if plain { Value::decode(&b) } else { Value::decode_with_limits(&b, dl, il) };
        let r = if plain { ValueRef::decode(&b) } else { ValueRef::decode_with_limits(&b, dl, il) };
        let conv = match (&o, &r) {
            (Ok(o), Ok(r)) if how == "pair" => {
                let (ro, or) = (r.to_owned(), o.as_ref());
                ro == *o && or == *r && ro.to_vec() == r.to_vec() && or.to_vec() == o.to_vec()
            }
            _ => true,
        };
        let own = match o {
            Ok(v) => {
                let (count, bad) = look!(&v, sh, n);
                json!({"k": "ok", "count": count, "bad": bad})
            }
            Err(e) => refused(e),
        };
        let bor = match r {
            Ok(v) => {
                let (count, bad) = look!(&v, sh, n);
                json!({"k": "ok", "count": count, "bad": bad})
            }
            Err(e) => refused(e),
        };
        json!({"k": "ok", "len": b.len(), "in": small, "own": own, "bor": bor, "conv": conv})
    });
}

fn faults(c: &mut Ctx, how: &str, sh: &str, n: usize) {
    for f in ["extra", "end"].iter() {
        decoded(c, how, sh, n, None, None, f, 0);
    }
    if sh == "keys" && n > 0 && n < 20000 {
        let mut ats = vec![0, n / 2, n - 1];
        ats.dedup();
        for at in ats {
            for f in ["odd", "nokey", "intkey", "badkey"].iter() {
                decoded(c, how, sh, n, None, None, f, at);
            }
        }
    }
}

fn encoded(c: &mut Ctx, how: &str, sh: &str, n: usize) {
    let b = input(sh, n);
    let small = if n <= 12 { bytes(&b) } else { bytes(b"") };
    let keys: Vec<String> = if sh == "keys" { (0..n).map(pad).collect() } else { vec![] };
    let text = if sh == "text" || sh == "keylen" { chars(n) } else { String::new() };
    c.case(json!({}));
    c.op(json!({"f": "big", "as": how, "sh": sh, "n": n, "dl": -1, "il": -1, "fault": "", "at": 0}), || {
        let own: Value = build!(Value, sh, n, |k: &str| k.to_string(), keys, &text[..]);
        fn same(k: &str) -> &str {
            k
        }
        let bor: ValueRef = build!(ValueRef, sh, n, same, keys, &text[..]);
        let (ob, bb) = (own.to_vec(), bor.to_vec());
        let say = |e: &[u8], d: Result<(i64, i64, bool), bencode::Error>| match d {
            Ok((count, bad, eq)) => json!({"k": "ok", "count": count, "bad": bad, "eq": eq, "enc": e.len(), "same": e == &b[..]}),
            Err(x) if how == "canon" => json!({"k": "ok", "enc": e.len(), "same": e == &b[..], "e": format!("{:?}", x)}),
            Err(x) => refused(x),
        };
        let o = Value::decode(&ob).map(|v| {
            let (count, bad) = look!(&v, sh, n);
            (count, bad, v == own)
        });
        let o = say(&ob, o);
        let r = ValueRef::decode(&bb).map(|v| {
            let (count, bad) = look!(&v, sh, n);
            (count, bad, v == bor)
        });
        let r = say(&bb, r);
        json!({"k": "ok", "len": b.len(), "in": small, "own": o, "bor": r})
    });
}

fn sizes(sh: &str, thorough: bool) -> Vec<usize> {
    let mut s: Vec<usize> = SIZES.to_vec();
    if thorough {
        s.extend(13..600);
    }
    if sh.ends_with("nest") {
        s.retain(|&n| n >= 1);
        return s;
    }
    s.extend(BIG);
    s.extend(HUGE);
    if sh.starts_with("text") || sh == "keylen" || thorough {
        s.extend(GIANT);
    }
    if sh == "text" {
        s.extend(&[9999999, 10000000, 16777215, 16777216, 16777217]);
    }
    s
}

/// One property's view of every shape and size.
pub fn big(c: &mut Ctx) {
    let how = c.input.clone().unwrap();
    for sh in SHAPES {
        for n in sizes(sh, c.thorough) {
            match &how[..] {
                "rt" | "canon" => encoded(c, &how, sh, n),
                "dec" => {
                    decoded(c, "dec", sh, n, None, None, "", 0);
                    if n > 0 && n % 4 == 1 {
                        decoded(c, "dec", sh, n, None, None, "cut", 0);
                    }
                    faults(c, "dec", sh, n);
                }
                _ => {
                    let (m, i) = match *sh {
                        "ints" | "empties" => (n.min(1), n),
                        "text" => (0, 0),
                        "keys" => (n.min(1), 2 * n),
                        "keylen" => (1, 2),
                        "nest" => (n - 1, n - 1),
                        _ => (n - 1, 2 * (n - 1)),
                    };
                    let how = if how == "lim" { "dec" } else { &how[..] };
                    let cut = if how == "why" && n > 0 { "cut" } else { "" };
                    if how != "dec" {
                        faults(c, how, sh, n);
                    }
                    decoded(c, how, sh, n, None, None, cut, 0);
                    decoded(c, how, sh, n, None, Some(i), "", 0);
                    decoded(c, how, sh, n, Some(m), None, "", 0);
                    if i > 0 {
                        decoded(c, how, sh, n, None, Some(i - 1), "", 0);
                    }
                    if m > 0 {
                        decoded(c, how, sh, n, Some(m - 1), None, "", 0);
                    }
                    if n < 5000 {
                        decoded(c, how, sh, n, None, Some(i + 1), "", 0);
                        decoded(c, how, sh, n, Some(m + 1), Some(usize::MAX), cut, 0);
                        decoded(c, how, sh, n, Some(usize::MAX), Some(i / 2), "", 0);
                        decoded(c, how, sh, n, Some(m / 2), None, cut, 0);
                    }
                }
            }
        }
    }
}
