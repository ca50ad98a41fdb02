//! Drivers of the text helpers.

use crate::rec::*;
use common::hex;
use serde_json::{json, Value as J};
use torrent_rs::verif::str_utl as su;

fn apply(o: &J) -> J {
    let s = to_bytes(&o["s"]);
    let sep = o["sep"].as_u64().unwrap_or(0) as u8;
    match o["f"].as_str().unwrap() {
        "tohex" => ok(bytes(hex::to_hex(&s).as_bytes())),
        "fromhex" => {
            let mut b = vec![0xa5; o["n"].as_u64().unwrap() as usize];
            match hex::from_hex(&s, &mut b) {
                Some(()) => ok(bytes(&b)),
                None => err("hex"),
            }
        }
        "ishex" => ok(J::from(hex::is_hex(&s))),
        "hexint" => ok(J::from(hex::hex_to_int(s[0]).map_or(-1, |x| x as i64))),
        "b32" => ok(bytes(&su::base32_decode(&s))),
        "unescb" => match su::unescape_bytes(&s) {
            Ok(v) => ok(bytes(&v)),
            Err(e) => err(e),
        },
        "unescs" => match su::unescape_string(&s) {
            Ok(v) => ok(bytes(v.as_bytes())),
            Err(e) => err(e),
        },
        "split" => {
            let (a, b) = su::split_string(&s, sep);
            json!({"k": "ok", "a": bytes(a), "b": bytes(b)})
        }
        "splitall" => {
            let mut rest = &s[..];
            let mut v = vec![];
            while !rest.is_empty() && v.len() < s.len() + 3 {
                let (a, b) = su::split_string(rest, sep);
                v.push(bytes(a));
                rest = b;
            }
            ok(J::Array(v))
        }
        "trim" => ok(bytes(su::trim(&s))),
        "int" => match su::parse_int(&s) {
            Ok(v) => ok(bytes(v.to_string().as_bytes())),
            Err(e) => err(e),
        },
        "upper" => ok(J::from(su::to_upper(s[0]))),
        "digit" => ok(J::from(su::is_digit(s[0]))),
        "blank" => ok(J::from(su::is_whitespace(s[0]))),
        f => panic!("{}", f),
    }
}

fn run(c: &mut Ctx, o: J) {
    c.op(o.clone(), || apply(&o));
}

/// All codec calls on `s` (C22).
fn codecs(c: &mut Ctx, s: &[u8]) {
    let b = bytes(s);
    run(c, json!({"f": "tohex", "s": b}));
    let n = (s.len() + 1) / 2 + if c.rng.chance(1, 4) { c.rng.below(4) } else { 0 };
    run(c, json!({"f": "fromhex", "s": b, "n": n}));
    run(c, json!({"f": "ishex", "s": b}));
    run(c, json!({"f": "b32", "s": b}));
    run(c, json!({"f": "unescb", "s": b}));
    run(c, json!({"f": "unescs", "s": b}));
}

/// All calls that take a string apart (C23).
fn pieces(c: &mut Ctx, s: &[u8], seps: &[u8]) {
    let b = bytes(s);
    for &x in seps {
        run(c, json!({"f": "split", "s": b, "sep": x}));
        if !s.contains(&b'"') {
            run(c, json!({"f": "splitall", "s": b, "sep": x}));
        }
    }
    run(c, json!({"f": "trim", "s": b}));
    run(c, json!({"f": "int", "s": b}));
}

fn singles(c: &mut Ctx, names: &[&str]) {
    for x in 0..=255u8 {
        c.case(json!({}));
        for f in names {
            run(c, json!({"f": f, "s": [x]}));
        }
    }
}

/// Every byte in every place of an escape, a pair of digits and a base32 group.
fn sweep(c: &mut Ctx) {
    for x in 0..=255u8 {
        c.case(json!({}));
        for s in [vec![b'%', x, b'4'], vec![b'%', b'4', x], vec![x, b'4', b'1'], vec![b'%', b'4', b'1', x]] {
            run(c, json!({"f": "unescb", "s": bytes(&s)}));
            run(c, json!({"f": "unescs", "s": bytes(&s)}));
        }
        for s in [[x, b'3'], [b'3', x]] {
            run(c, json!({"f": "fromhex", "s": bytes(&s), "n": 1}));
            run(c, json!({"f": "ishex", "s": bytes(&s)}));
        }
        for k in 0..8 {
            let mut s = *b"k5qxw4tz";
            s[k] = x;
            run(c, json!({"f": "b32", "s": bytes(&s)}));
        }
    }
}

/// Long strings of one thing over and over, then something else, then a bit more.
fn runs(c: &mut Ctx, units: &[&[u8]], odd: &[u8], mut f: impl FnMut(&mut Ctx, &[u8])) {
    for u in units {
        for n in [127usize, 128, 129, 255, 256, 257, 300, 513, 700, 1025] {
            if !c.thorough && !c.rng.chance(1, 3) {
                continue;
            }
            c.case(json!({}));
            let mut s: Vec<u8> = u.iter().cycle().take(n * if c.thorough { u.len() } else { 1 }).cloned().collect();
            f(c, &s);
            let x = *c.rng.pick(odd);
            s.push(x);
            f(c, &s);
            s.extend(*u);
            let i = c.rng.below(s.len());
            s[i] = *c.rng.pick(odd);
            f(c, &s);
        }
    }
}

fn length(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => r.range(60, 300),
        1..=3 => r.range(16, 45),
        _ => r.below(16),
    }
}

fn swapcase(r: &mut Rng, s: &mut [u8], how: usize) {
    for x in s.iter_mut() {
        if how == 1 || (how == 2 && r.chance(1, 2)) {
            x.make_ascii_uppercase();
        }
    }
}

fn spoil(r: &mut Rng, s: &mut Vec<u8>, near: &[u8]) {
    for _ in 0..r.range(1, 2) {
        let x = if r.chance(1, 2) { *r.pick(near) } else { r.byte() };
        let n = s.len();
        match r.below(4) {
            0 if n > 0 => {
                let i = r.below(n);
                s[i] = x;
            }
            1 if n > 0 => {
                let i = r.below(n);
                s.remove(i);
            }
            2 if n > 0 => {
                // at the edges
                let i = *r.pick(&[0, n - 1]);
                s[i] = x;
            }
            _ => {
                let i = r.below(n + 1);
                s.insert(i, x);
            }
        }
    }
}

pub fn b32(b: &[u8], pad: bool) -> Vec<u8> {
    let mut v = vec![];
    for k in b.chunks(5) {
        let mut x = [0u8; 5];
        x[..k.len()].copy_from_slice(k);
        let n = x.iter().fold(0u64, |a, &y| a << 8 | y as u64);
        let m = (k.len() * 8 + 4) / 5;
        for j in 0..8 {
            if j < m {
                v.push(b"abcdefghijklmnopqrstuvwxyz234567"[(n >> (35 - 5 * j)) as usize & 31]);
            } else if pad {
                v.push(b'=');
            }
        }
    }
    v
}

fn some_bytes(r: &mut Rng) -> Vec<u8> {
    let n = length(r);
    match r.below(6) {
        0 => vec![*r.pick(&[0, 255, 128, 1]); n],
        1 => (0..n).map(|_| *r.pick(b"%+ abz09AFgG=\"&#")).collect(),
        2 => {
            let mut s = String::new();
            for _ in 0..n / 2 {
                s.push(crate::ben::gen_char(r));
            }
            s.into_bytes()
        }
        _ => r.bytes(n),
    }
}

fn lines(c: &Ctx) -> Option<Vec<J>> {
    let p = c.input.clone()?;
    let t = std::fs::read_to_string(p).expect("input");
    Some(t.lines().map(|l| serde_json::from_str(l).expect("json")).collect())
}

pub fn codec(c: &mut Ctx) {
    if let Some(v) = lines(c) {
        for j in v {
            c.case(json!({}));
            codecs(c, &to_bytes(&j["s"]));
        }
        return;
    }
    singles(c, &["hexint", "ishex", "upper"]);
    sweep(c);
    runs(c, &[b"+", b"%41", b"%", b"a", b"A1", b"\xff", b"mzxw6===", b"a+", b"2"], b"+%=za1\x00\xff", codecs);
    for _ in 0..c.n {
        c.case(json!({}));
        let b = some_bytes(&mut c.rng);
        let how = c.rng.below(3);
        let kind = c.rng.below(4);
        let mut s = match kind {
            0 => b,
            1 => {
                let mut s: Vec<u8> = b.iter().flat_map(|x| format!("{:02x}", x).into_bytes()).collect();
                swapcase(&mut c.rng, &mut s, how);
                s
            }
            2 => {
                let pad = c.rng.chance(1, 2);
                let mut s = b32(&b, pad);
                swapcase(&mut c.rng, &mut s, how);
                s
            }
            _ => {
                let dense = c.rng.below(4);
                let mut s = vec![];
                let mut b = b;
                if c.rng.chance(1, 3) {
                    // something that looks escaped once more
                    let i = c.rng.below(b.len() + 1);
                    let x: &[u8] = c.rng.pick(&[&b"%41"[..], b"%25", b"%2b", b"%%", b"%2", b"%zz", b"%2525", b"+%20"]);
                    b.splice(i..i, x.iter().cloned());
                }
                for &x in &b {
                    if x == b'%' || x == b'+' || (x == b' ' && dense == 0) || c.rng.below(4) < dense {
                        let mut e = format!("%{:02x}", x).into_bytes();
                        swapcase(&mut c.rng, &mut e, how);
                        s.extend(e);
                    } else if x == b' ' {
                        s.push(b'+');
                    } else {
                        s.push(x);
                    }
                }
                s
            }
        };
        if c.rng.chance(1, 3) {
            spoil(&mut c.rng, &mut s, b"%+=0189agAGzZ/:@`{ ");
        }
        codecs(c, &s);
    }
}

fn number(r: &mut Rng) -> Vec<u8> {
    let mut s = match r.below(5) {
        0 => format!("{}", r.pick(&[i64::MAX, i64::MIN, 0, -1, 1, 10000, i64::MAX - 1, i64::MIN + 1])),
        1 => format!("{}", i64::MAX as i128 + r.below(20) as i128 - 10),
        2 => format!("{}", i64::MIN as i128 + r.below(20) as i128 - 10),
        3 => format!("{}{}", r.pick(&["0", "00", "-0", "+", "-", "+0"]), r.below(1000)),
        _ => format!("{}", (r.u64() as i64) >> r.below(64)),
    }
    .into_bytes();
    if r.chance(1, 3) {
        spoil(r, &mut s, b"0-+ 9.a,");
    }
    s
}

pub fn piece(c: &mut Ctx) {
    if let Some(v) = lines(c) {
        for j in v {
            c.case(json!({}));
            pieces(c, &to_bytes(&j["s"]), b"\", a");
        }
        return;
    }
    singles(c, &["digit", "blank", "trim", "int"]);
    // every byte in every place, in and out of quotes, and as the separator
    for x in 0..=255u8 {
        c.case(json!({}));
        for s in [&b"\"a,b\",c"[..], b"ab,\"c\"", b"\"a\"b\",", b" 12 ", b"-70"] {
            let i = c.rng.below(s.len() + 1);
            for at in [i, (x as usize) % (s.len() + 1)] {
                let mut v = s.to_vec();
                v.insert(at, x);
                pieces(c, &v, &[b',']);
                if at < s.len() {
                    v.remove(at + 1);
                    pieces(c, &v, &[b',', x]);
                }
            }
        }
        pieces(c, &[b'"', b'a', x, b'b', b'"', x, b'c', x], &[x]);
        pieces(c, &[b'a', x, x, b'b'], &[x]);
    }
    runs(c, &[b" ", b",", b"\"", b"a", b"a,", b"\",\"", b"0", b"-", b"\t \r\n", b"\xff"], b", \"0a\x00\xff", |c, s| pieces(c, s, b","));
    for n in [100, 126, 127, 128, 253, 254, 255, 256, 257, 300, 511, 512, 600, 1024].iter() {
        // long quoted pieces
        c.case(json!({}));
        let mut s = vec![b'"'];
        s.extend((0..*n).map(|i| if i % 50 == 7 { b',' } else { b'q' }));
        pieces(c, &s, b",");
        s.push(b'"');
        pieces(c, &s, b",");
        s.extend(b",b\"c,d\",e");
        pieces(c, &s, b",");
        s.insert(0, b',');
        pieces(c, &s, b",");
    }
    for _ in 0..c.n {
        c.case(json!({}));
        let n = length(&mut c.rng);
        let r = &mut c.rng;
        let sep = *r.pick(b", \"&;:\0\n-");
        let mut s = match r.below(5) {
            0 => number(r),
            1 => some_bytes(r),
            _ => {
                let pool = [sep, b'"', b'a', b'b', b' ', b',', b'\t', b'\r', b'\n', 11, 0xa0];
                let m = r.range(3, pool.len());
                (0..n).map(|_| pool[r.below(m)]).collect()
            }
        };
        if r.chance(1, 3) {
            s.insert(0, b'"');
        }
        if r.chance(1, 3) {
            for _ in 0..r.range(1, 3) {
                let x = *r.pick(b" \t\r\n\x0b\x0c");
                s.insert(0, x);
                let x = *r.pick(b" \t\r\n\x0b\x0c");
                s.push(x);
            }
        }
        let other = c.rng.byte();
        pieces(c, &s, &[sep, other]);
    }
}
