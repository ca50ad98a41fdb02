//! Writers that are hard to please, and values built and edited in place.

use crate::ben::{bor_json, gen_int, gen_key, gen_tree, own_json, T};
use crate::docs::tree;
use crate::rec::*;
use bencode::{Value, ValueRef};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Write};

// ------------------------------------------------------------------ writers

#[derive(Clone, Copy, PartialEq)]
enum A {
    Take(usize),
    Intr,
    Fail(ErrorKind),
}

const KINDS: &[(ErrorKind, &str)] = &[
    (ErrorKind::Other, "Other"),
    (ErrorKind::BrokenPipe, "BrokenPipe"),
    (ErrorKind::WouldBlock, "WouldBlock"),
    (ErrorKind::UnexpectedEof, "UnexpectedEof"),
    (ErrorKind::InvalidData, "InvalidData"),
];

fn kind(k: ErrorKind) -> String {
    KINDS.iter().find(|x| x.0 == k).map(|x| x.1.to_string()).unwrap_or_else(|| format!("{:?}", k))
}

/// Answers as told, then always takes `tail` bytes.
struct Sink {
    plan: Vec<A>,
    tail: usize,
    at: usize,
    log: Vec<J>,
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let a = self.plan.get(self.at).copied().unwrap_or(A::Take(self.tail));
        self.at += 1;
        match a {
            A::Take(n) => {
                let n = n.min(b.len());
                self.log.push(json!({"a": "took", "n": b.len(), "b": bytes(&b[..n])}));
                Ok(n)
            }
            A::Intr => {
                self.log.push(json!({"a": "intr", "n": b.len()}));
                Err(ErrorKind::Interrupted.into())
            }
            A::Fail(k) => {
                self.log.push(json!({"a": kind(k), "n": b.len()}));
                Err(Error::new(k, "told to fail"))
            }
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn one_sink(c: &mut Ctx, t: &T, plan: &[A], tail: usize, own: bool) {
    c.case(json!({}));
    let mut s = Sink { plan: plan.to_vec(), tail, at: 0, log: vec![] };
    let mut end = json!({});
    c.op(json!({"f": "open", "v": t.json(), "own": own}), || {
        let r = if own { t.own().encode(&mut s) } else { t.bor().encode(&mut s) };
        end = match r {
            Ok(()) => json!({"k": "ok"}),
            Err(e) => json!({"k": "err", "e": kind(e.kind())}),
        };
        json!({"k": "ok"})
    });
    for j in s.log {
        c.op(json!({"f": "write"}), || j);
    }
    c.op(json!({"f": "close"}), || end);
}

pub fn sink(c: &mut Ctx) {
    if let Some(p) = c.input.clone() {
        for l in std::fs::read_to_string(p).expect("input").lines() {
            let j: J = serde_json::from_str(l).expect("json");
            let plan: Vec<A> = j["h"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| match x.as_str().unwrap() {
                    "one" => A::Take(1),
                    "two" => A::Take(2),
                    "all" => A::Take(usize::MAX),
                    "zero" => A::Take(0),
                    "intr" => A::Intr,
                    _ => A::Fail(ErrorKind::Other),
                })
                .collect();
            let t = tree(&j["v"]);
            for own in [true, false].iter() {
                one_sink(c, &t, &plan, usize::MAX, *own);
            }
        }
        return;
    }
    // big pieces
    for n in [127, 128, 255, 256, 511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16385].iter() {
        for tail in [n / 3, *n, n + 1, 1000, usize::MAX, usize::MAX, usize::MAX, usize::MAX].iter() {
            let r = &mut c.rng;
            let t = match r.below(3) {
                0 => T::S(r.bytes(*n)),
                1 => T::L(vec![T::S(r.bytes(*n)), T::I(7)]),
                _ => T::D(vec![("k".repeat(*n), T::S(vec![]))].into_iter().collect()),
            };
            let plan = match r.below(7) {
                0 => vec![],
                4..=6 => {
                    // an odd answer to one of the first calls
                    let mut p: Vec<A> = (0..r.below(9)).map(|_| A::Take(usize::MAX)).collect();
                    p.push(match r.below(4) {
                        0 => A::Take(0),
                        1 => A::Fail(r.pick(KINDS).0),
                        2 => A::Intr,
                        _ => A::Take(r.range(1, *n)),
                    });
                    p.push(if r.chance(1, 2) { A::Intr } else { A::Take(1) });
                    p
                }
                1 => vec![A::Take(1), A::Intr, A::Take(*n - 1), A::Intr, A::Take(2)],
                2 => vec![A::Take(1), A::Take(2), A::Take(*n / 2), A::Fail(r.pick(KINDS).0)],
                _ => vec![A::Take(usize::MAX), A::Take(usize::MAX), A::Take(*n - 1)],
            };
            for own in [true, false].iter() {
                one_sink(c, &t, &plan, *tail, *own);
            }
        }
    }
    // an odd answer to each of the first calls
    for n in [255, 4096, 9000].iter() {
        for which in 0..2 {
            for at in 0..6 {
                for odd in 0..4 {
                    if !c.thorough && odd != 0 && c.rng.chance(1, 2) {
                        continue;
                    }
                    let r = &mut c.rng;
                    let t = match which {
                        0 => T::S(r.bytes(*n)),
                        _ => T::D(vec![("k".repeat(*n), T::S(vec![]))].into_iter().collect()),
                    };
                    let mut plan = vec![A::Take(usize::MAX); at];
                    plan.push([A::Intr, A::Take(n - 1), A::Take(0), A::Intr][odd]);
                    if odd == 3 {
                        plan.push(A::Take(1));
                    }
                    for own in [true, false].iter() {
                        one_sink(c, &t, &plan, usize::MAX, *own);
                    }
                }
            }
        }
    }
    // many levels, many members
    for n in [31, 32, 33, 50, 51, 63, 64, 65, 100, 127, 128, 129].iter() {
        for which in 0..5 {
            // (the trace cannot hold deeper ones)
            let n = &if which < 3 { (*n).min([110, 75, 110][which]) } else { *n };
            let r = &mut c.rng;
            let t = match which {
                0 => (0..*n).fold(T::I(7), |t, _| T::L(vec![t])),
                1 => (0..*n).fold(T::S(vec![]), |t, i| T::D(vec![(["", "k", "key"][i % 3].to_string(), t)].into_iter().collect())),
                2 => (0..*n).fold(T::L(vec![]), |t, i| T::L(vec![T::I(i as i64), t, T::S(vec![b'x'; i % 3])])),
                3 => T::L((0..*n).map(|i| T::I(i as i64)).collect()),
                _ => T::D((0..*n).map(|i| (format!("k{}", i), T::L(vec![]))).collect()),
            };
            let zero = r.range(1, 5 * n);
            let plan = match r.below(4) {
                0 => vec![],
                1 => (0..2 * n).map(|i| if i % 3 == 0 { A::Intr } else { A::Take(1) }).collect(),
                2 => (0..zero).map(|i| if i + 1 == zero { A::Take(0) } else { A::Take(usize::MAX) }).collect(),
                _ => (0..4 * n).map(|i| if i % 2 == 0 { A::Take(usize::MAX) } else { A::Intr }).collect(),
            };
            let tail = *r.pick(&[1, 2, 7, usize::MAX]);
            for own in [true, false].iter() {
                one_sink(c, &t, &plan, tail, *own);
            }
        }
    }
    for i in 0..c.n {
        let r = &mut c.rng;
        let t = if i % 40 == 3 {
            let n = *r.pick(&[100, 300, 1000]);
            T::L(vec![T::S(r.bytes(n)), T::I(gen_int(r)), T::D((0..20).map(|_| (gen_key(r), T::I(1))).collect())])
        } else {
            let d = r.below(4);
            gen_tree(r, d, 4, false)
        };
        let n = *r.pick(&[0, 3, 10, 40]);
        let gentle = r.chance(1, 2);
        let plan: Vec<A> = (0..n)
            .map(|_| match r.below(if gentle { 5 } else { 7 }) {
                0 => A::Take(1),
                1 => A::Take(r.range(1, 9)),
                2 => A::Intr,
                3 | 4 => A::Take(usize::MAX),
                5 if r.chance(1, 3) => A::Fail(r.pick(KINDS).0),
                5 => A::Take(2),
                _ if r.chance(1, 4) => A::Take(0),
                _ => A::Intr,
            })
            .collect();
        let tail = *r.pick(&[1, 2, 3, 7, 64, usize::MAX]);
        let own = r.chance(1, 2);
        one_sink(c, &t, &plan, tail, own);
    }
}

// -------------------------------------------------------------------- edits

#[derive(Clone)]
enum P {
    K(String),
    I(usize),
}

#[derive(Clone)]
enum E {
    Int(i64),
    Str(Vec<u8>),
    List(Vec<usize>),
    Dict(Vec<String>, Vec<usize>),
    Copy(usize),
    Conv,
    Eq(usize),
    Unlist,
    Undict,
    Push(Vec<P>, usize),
    Pop(Vec<P>),
    Set(Vec<P>, usize, usize),
    Ins(Vec<P>, usize, usize),
    Put(Vec<P>, String, usize),
    Del(Vec<P>, String),
}

fn key(k: &str) -> J {
    bytes(k.as_bytes())
}

fn path_json(p: &[P]) -> J {
    p.iter()
        .map(|x| match x {
            P::K(k) => json!({"k": key(k)}),
            P::I(i) => json!({"i": i}),
        })
        .collect()
}

fn op_json(d: usize, e: &E) -> J {
    let mut j = match e {
        E::Int(n) => json!({"op": "int", "n": bytes(n.to_string().as_bytes())}),
        E::Str(b) => json!({"op": "str", "b": bytes(b)}),
        E::List(x) => json!({"op": "list", "xs": x}),
        E::Dict(k, x) => json!({"op": "dict", "ks": k.iter().map(|k| key(k)).collect::<Vec<_>>(), "xs": x}),
        E::Copy(x) => json!({"op": "copy", "x": x}),
        E::Conv => json!({"op": "conv"}),
        E::Eq(x) => json!({"op": "eq", "x": x}),
        E::Unlist => json!({"op": "unlist"}),
        E::Undict => json!({"op": "undict"}),
        E::Push(p, x) => json!({"op": "push", "path": path_json(p), "x": x}),
        E::Pop(p) => json!({"op": "pop", "path": path_json(p), "x": 1}),
        E::Set(p, i, x) => json!({"op": "set", "path": path_json(p), "i": i, "x": x}),
        E::Ins(p, i, x) => json!({"op": "ins", "path": path_json(p), "i": i, "x": x}),
        E::Put(p, k, x) => json!({"op": "put", "path": path_json(p), "k": key(k), "x": x}),
        E::Del(p, k) => json!({"op": "del", "path": path_json(p), "k": key(k), "x": 1}),
    };
    j["f"] = "edit".into();
    j["d"] = d.into();
    j
}

fn op_of(j: &J) -> (usize, E) {
    let n = |k: &str| j[k].as_u64().unwrap() as usize;
    let text = |v: &J| String::from_utf8(to_bytes(v)).unwrap();
    let path = || -> Vec<P> {
        j["path"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| if x.get("k").is_some() { P::K(text(&x["k"])) } else { P::I(x["i"].as_u64().unwrap() as usize) })
            .collect()
    };
    let xs = || -> Vec<usize> { j["xs"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() };
    let e = match j["op"].as_str().unwrap() {
        "int" => E::Int(text(&j["n"]).parse().unwrap()),
        "str" => E::Str(to_bytes(&j["b"])),
        "list" => E::List(xs()),
        "dict" => E::Dict(j["ks"].as_array().unwrap().iter().map(|k| text(k)).collect(), xs()),
        "copy" => E::Copy(n("x")),
        "conv" => E::Conv,
        "eq" => E::Eq(n("x")),
        "unlist" => E::Unlist,
        "undict" => E::Undict,
        "push" => E::Push(path(), n("x")),
        "pop" => E::Pop(path()),
        "set" => E::Set(path(), n("i"), n("x")),
        "ins" => E::Ins(path(), n("i"), n("x")),
        "put" => E::Put(path(), text(&j["k"]), n("x")),
        "del" => E::Del(path(), text(&j["k"])),
        f => panic!("{}", f),
    };
    (n("d"), e)
}

fn leak(b: &[u8]) -> &'static [u8] {
    Box::leak(b.to_vec().into_boxed_slice())
}

fn leak_str(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

/// One operation on a register file of either representation.
macro_rules! doer {
    ($name: ident, $V: ty, $key: expr, $bytes: expr, $conv: expr) => {
        fn $name(s: &mut Vec<$V>, d: usize, e: &E, m: usize) -> bool {
            fn at<'x>(v: &'x mut $V, p: &[P]) -> Option<&'x mut $V> {
                match p.first() {
                    None => Some(v),
                    Some(P::K(k)) => at(v.as_dict_mut()?.get_mut(&k[..])?, &p[1..]),
                    Some(P::I(i)) => at(v.as_list_mut()?.get_mut(*i)?, &p[1..]),
                }
            }
            let d = d - 1;
            let get = |s: &Vec<$V>, x: usize| s[x - 1].clone();
            match e {
                E::Int(n) => s[d] = <$V>::with_int(*n),
                E::Str(b) => s[d] = $bytes(b, m),
                E::List(xs) => {
                    let l = xs.iter().map(|&x| get(s, x)).collect();
                    s[d] = <$V>::with_list(l);
                }
                E::Dict(ks, xs) => {
                    let mut b = BTreeMap::new();
                    for (k, &x) in ks.iter().zip(xs) {
                        b.insert($key(k), get(s, x));
                    }
                    s[d] = <$V>::with_dict(b);
                }
                E::Copy(x) => s[d] = get(s, *x),
                E::Conv => s[d] = $conv(&s[d]),
                E::Eq(x) => return s[d] == s[x - 1] && !(s[d] != s[x - 1]),
                E::Unlist => match get(s, d + 1).into_list() {
                    Some(l) => s[d] = <$V>::with_list(l.into_iter().collect()),
                    None => return false,
                },
                E::Undict => match get(s, d + 1).into_dict() {
                    Some(l) => s[d] = <$V>::with_dict(l.into_iter().collect()),
                    None => return false,
                },
                E::Push(p, x) => {
                    let v = get(s, *x);
                    match at(&mut s[d], p).and_then(|n| n.as_list_mut()) {
                        Some(l) => l.push(v),
                        None => return false,
                    }
                }
                E::Pop(p) => return at(&mut s[d], p).and_then(|n| n.as_list_mut()).and_then(|l| l.pop()).is_some(),
                E::Set(p, i, x) => {
                    let v = get(s, *x);
                    match at(&mut s[d], p).and_then(|n| n.as_list_mut()).and_then(|l| l.get_mut(*i)) {
                        Some(n) => *n = v,
                        None => return false,
                    }
                }
                E::Ins(p, i, x) => {
                    let v = get(s, *x);
                    match at(&mut s[d], p).and_then(|n| n.as_list_mut()).filter(|l| *i <= l.len()) {
                        Some(l) => l.insert(*i, v),
                        None => return false,
                    }
                }
                E::Put(p, k, x) => {
                    let v = get(s, *x);
                    match at(&mut s[d], p).and_then(|n| n.as_dict_mut()) {
                        Some(l) => {
                            l.insert($key(k), v);
                        }
                        None => return false,
                    }
                }
                E::Del(p, k) => return at(&mut s[d], p).and_then(|n| n.as_dict_mut()).and_then(|l| l.remove(&k[..])).is_some(),
            }
            true
        }
    };
}

fn own_bytes(b: &[u8], m: usize) -> Value {
    match (std::str::from_utf8(b), m) {
        (Ok(s), 0) => Value::with_str(s),
        (Ok(s), 1) => Value::with_string(s.to_string()),
        (_, 2) => Value::from(b.to_vec()),
        _ => Value::from(b),
    }
}

fn bor_bytes(b: &[u8], m: usize) -> ValueRef<'static> {
    match (std::str::from_utf8(b), m % 2) {
        (Ok(s), 0) => ValueRef::with_str(leak_str(s)),
        _ => ValueRef::from(leak(b)),
    }
}

fn own_conv(v: &Value) -> Value {
    v.as_ref().to_owned()
}

fn bor_conv(v: &ValueRef) -> ValueRef<'static> {
    let o: &'static Value = Box::leak(Box::new(v.to_owned()));
    o.as_ref()
}

doer!(do_own, Value, |k: &String| k.clone(), own_bytes, own_conv);
doer!(do_bor, ValueRef<'static>, |k: &String| leak_str(k), bor_bytes, bor_conv);

struct Regs {
    own: Vec<Value>,
    bor: Vec<ValueRef<'static>>,
}

fn step(c: &mut Ctx, s: &mut Regs, d: usize, e: &E) {
    let m = c.rng.below(4);
    step_by(c, s, d, e, m)
}

fn step_by(c: &mut Ctx, s: &mut Regs, d: usize, e: &E, m: usize) {
    c.op(op_json(d, e), || {
        let ao = do_own(&mut s.own, d, e, m);
        let ab = do_bor(&mut s.bor, d, e, m);
        json!({"k": "ok", "ao": ao, "ab": ab, "own": own_json(&s.own[d - 1]), "bor": bor_json(&s.bor[d - 1]),
            "eo": s.own.iter().map(|v| bytes(&v.to_vec())).collect::<Vec<_>>(),
            "eb": s.bor.iter().map(|v| bytes(&v.to_vec())).collect::<Vec<_>>()})
    });
}

fn open(c: &mut Ctx) -> Regs {
    c.case(json!({}));
    Regs { own: vec![Value::with_int(0); 3], bor: vec![ValueRef::with_int(0); 3] }
}

fn gen_path(r: &mut Rng, v: &Value) -> Vec<P> {
    let mut p = vec![];
    let mut v = v;
    for _ in 0..r.below(4) {
        match v {
            Value::List(l) if !l.is_empty() => {
                let i = r.below(l.len());
                p.push(P::I(i));
                v = &l[i];
            }
            Value::Dict(d) if !d.is_empty() => {
                let (k, x) = d.iter().nth(r.below(d.len())).unwrap();
                p.push(P::K(k.clone()));
                v = x;
            }
            _ => break,
        }
    }
    if r.chance(1, 12) {
        // likely to lead nowhere
        p.push(if r.chance(1, 2) { P::K(gen_key(r)) } else { P::I(r.below(4)) });
    }
    p
}

/// Every character in every place of a text, by every constructor and as a
/// key; integers around every power.
fn char_sweep(c: &mut Ctx) {
    let mut chars: Vec<String> = (0..128u8).map(|x| (x as char).to_string()).collect();
    chars.extend(["\u{80}", "\u{85}", "\u{a0}", "\u{df}", "\u{130}", "\u{7ff}", "\u{800}", "\u{200b}", "\u{2028}", "\u{feff}", "\u{fffd}",
        "\u{ffff}", "\u{10000}", "\u{10ffff}", "e\u{301}"].iter().map(|x| x.to_string()));
    for x in &chars {
        let mut s = open(c);
        for t in [x.clone(), format!("{}a", x), format!("a{}", x), format!("a{}b", x), format!("{}{}", x, x)] {
            for m in 0..4 {
                step_by(c, &mut s, 1 + m % 3, &E::Str(t.clone().into_bytes()), m);
            }
            step(c, &mut s, 2, &E::Dict(vec![t.clone(), "a".into()], vec![1, 3]));
            step(c, &mut s, 2, &E::Conv);
            step(c, &mut s, 2, &E::Put(vec![], t.clone(), 1));
            step(c, &mut s, 2, &E::Del(vec![], t));
        }
    }
    for x in 128..=255u8 {
        let mut s = open(c);
        for t in [vec![x], vec![x, b'a'], vec![b'a', x], vec![0xc3, x], vec![x, x]] {
            for m in 2..4 {
                step_by(c, &mut s, m - 1, &E::Str(t.clone()), m);
                step(c, &mut s, m - 1, &E::Conv);
            }
        }
    }
    let mut ints = vec![];
    for k in 0..63 {
        ints.extend(vec![1i64 << k, (1 << k) - 1, -(1 << k), -(1 << k) - 1]);
    }
    let mut p = 1i64;
    while p < i64::MAX / 10 {
        p *= 10;
        ints.extend(vec![p, p - 1, -p, 1 - p]);
    }
    ints.extend(vec![i64::MAX, i64::MIN, i64::MIN + 1]);
    for chunk in ints.chunks(9) {
        let mut s = open(c);
        for n in chunk {
            step(c, &mut s, 1, &E::Int(*n));
            step(c, &mut s, 1, &E::Conv);
        }
    }
}

pub fn edit(c: &mut Ctx) {
    if let Some(p) = c.input.clone() {
        for l in std::fs::read_to_string(p).expect("input").lines() {
            let j: J = serde_json::from_str(l).expect("json");
            let mut s = open(c);
            for o in j["h"].as_array().unwrap() {
                let (d, e) = op_of(o);
                step(c, &mut s, d, &e);
            }
        }
        return;
    }
    char_sweep(c);
    for _ in 0..c.n {
        let mut s = open(c);
        let few: Vec<String> = (0..4).map(|_| gen_key(&mut c.rng)).collect();
        for _ in 0..c.rng.range(4, 25) {
            let r = &mut c.rng;
            let (d, x) = (r.range(1, 3), r.range(1, 3));
            let big = s.own.iter().any(|v| v.to_vec().len() > 250);
            let path = gen_path(r, &s.own[d - 1]);
            let k = if r.chance(1, 4) { gen_key(r) } else { r.pick(&few).clone() };
            let i = r.below(5);
            let e = match if big { r.below(8) } else { r.below(22) } {
                0 => E::Int(gen_int(r)),
                1 => E::Str(crate::ben::gen_str(r, false)),
                2 => E::Conv,
                3 => E::Eq(x),
                4 => E::Unlist,
                5 => E::Undict,
                6 => E::Pop(path),
                7 => E::Del(path, k),
                8 => E::Copy(x),
                9 | 10 => E::List((0..r.below(4)).map(|_| r.range(1, 3)).collect()),
                11 | 12 => {
                    let n = r.below(4);
                    E::Dict((0..n).map(|_| r.pick(&few).clone()).collect(), (0..n).map(|_| r.range(1, 3)).collect())
                }
                13 | 14 => E::Push(path, x),
                15 => E::Set(path, i, x),
                16 => E::Ins(path, i, x),
                _ => E::Put(path, k, x),
            };
            step(c, &mut s, d, &e);
        }
    }
}

// -------------------------------------------------------------------- order

fn num<X: PartialOrd>(a: &X, b: &X) -> i64 {
    let n = match a.partial_cmp(b) {
        Some(o) => o as i64,
        None => return 7,
    };
    // the operators have to say the same
    let ops = [(a < b) == (n < 0), (a <= b) == (n <= 0), (a > b) == (n > 0), (a >= b) == (n >= 0), (a == b) == (n == 0), (a != b) == (n != 0)];
    if ops.iter().all(|x| *x) {
        n
    } else {
        8
    }
}

fn all<X: PartialOrd>(v: &[X]) -> (Vec<Vec<i64>>, Vec<usize>) {
    let m = v.iter().map(|a| v.iter().map(|b| num(a, b)).collect()).collect();
    let mut p: Vec<usize> = (1..=v.len()).collect();
    p.sort_by(|&i, &j| v[i - 1].partial_cmp(&v[j - 1]).unwrap());
    (m, p)
}

fn one_order(c: &mut Ctx, ts: &[T]) {
    c.case(json!({}));
    c.op(json!({"f": "order", "vs": ts.iter().map(|t| t.json()).collect::<Vec<_>>()}), || {
        let o: Vec<Value> = ts.iter().map(|t| t.own()).collect();
        let b: Vec<ValueRef> = ts.iter().map(|t| t.bor()).collect();
        let (own, so) = all(&o);
        let (bor, sb) = all(&b);
        json!({"k": "ok", "own": own, "bor": bor, "so": so, "sb": sb})
    });
}

/// A value that differs a little.
fn vary(r: &mut Rng, t: &T) -> T {
    match t {
        T::I(n) => match r.below(4) {
            0 => T::I(n.wrapping_add(1)),
            1 => T::I(n.wrapping_neg()),
            2 => T::I(n / 10),
            _ => T::I(gen_int(r)),
        },
        T::S(b) => {
            let mut b = b.clone();
            match r.below(4) {
                0 => b.push(r.below(256) as u8),
                1 => {
                    b.pop();
                }
                _ if !b.is_empty() => {
                    let i = r.below(b.len());
                    b[i] = *r.pick(&[0, b'0', b'9', b'a', 0x7f, 0x80, 0xff]);
                }
                _ => b = vec![0],
            }
            T::S(b)
        }
        T::L(l) => {
            let mut l = l.clone();
            match r.below(5) {
                0 => l.push(T::I(0)),
                1 => {
                    l.pop();
                }
                2 if l.len() > 1 => {
                    let i = r.below(l.len() - 1);
                    l.swap(i, i + 1);
                }
                _ if !l.is_empty() => {
                    let i = r.below(l.len());
                    l[i] = vary(r, &l[i]);
                }
                _ => l = vec![T::L(vec![])],
            }
            T::L(l)
        }
        T::D(d) => {
            let mut d = d.clone();
            let ks: Vec<String> = d.keys().cloned().collect();
            match r.below(5) {
                0 => {
                    d.insert(gen_key(r), T::I(0));
                }
                1 if !ks.is_empty() => {
                    d.remove(r.pick(&ks));
                }
                2 if !ks.is_empty() => {
                    let k = r.pick(&ks).clone();
                    let v = d.remove(&k).unwrap();
                    d.insert(format!("{}{}", k, r.pick(&["a", "0", "\u{e9}"])), v);
                }
                _ if !ks.is_empty() => {
                    let k = r.pick(&ks).clone();
                    let v = vary(r, &d[&k]);
                    d.insert(k, v);
                }
                _ => {
                    d.insert(String::new(), T::S(vec![]));
                }
            }
            T::D(d)
        }
    }
}

pub fn order(c: &mut Ctx) {
    if let Some(p) = c.input.clone() {
        for l in std::fs::read_to_string(p).expect("input").lines() {
            let j: J = serde_json::from_str(l).expect("json");
            let ts: Vec<T> = j["vs"].as_array().unwrap().iter().map(tree).collect();
            one_order(c, &ts);
        }
        return;
    }
    for i in 0..c.n {
        let r = &mut c.rng;
        let d = r.below(4);
        let mut ts = vec![gen_tree(r, d, 3, i % 50 == 7)];
        for _ in 0..r.range(1, 5) {
            let t = match r.below(6) {
                0 => gen_tree(r, d, 3, false),
                1 => r.pick(&ts).clone(),
                2 => T::L(vec![r.pick(&ts).clone()]),
                _ => {
                    let t = r.pick(&ts).clone();
                    vary(r, &t)
                }
            };
            ts.push(t);
        }
        one_order(c, &ts);
    }
}
