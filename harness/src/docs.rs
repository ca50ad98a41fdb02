//! Drivers for what is saved and loaded: node state, settings, addresses,
//! messages.

use crate::ben::{bor_json, gen_int, gen_str, gen_tree, own_json, T};
use crate::rec::*;
use crate::stor::{octets, wire};
use bencode::{Value, ValueRef};
use dht::detail;
use dht::settings::DhtSettings;
use dht::state::DhtState;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::io::{self, Cursor, Read, Write};
use std::net::{IpAddr, SocketAddr, SocketAddrV6};

pub fn tree(j: &J) -> T {
    match j["t"].as_str().unwrap() {
        "i" => T::I(String::from_utf8(to_bytes(&j["n"])).unwrap().parse().unwrap()),
        "s" => T::S(to_bytes(&j["b"])),
        "l" => T::L(j["l"].as_array().unwrap().iter().map(tree).collect()),
        _ => T::D(
            j["d"].as_array().unwrap().iter()
                .map(|p| (String::from_utf8(to_bytes(&p["k"])).unwrap(), tree(&p["v"])))
                .collect(),
        ),
    }
}

fn lines(c: &Ctx) -> Option<Vec<J>> {
    let path = c.input.clone()?;
    Some(std::fs::read_to_string(path).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect())
}

fn addr_of(b: &[u8]) -> IpAddr {
    if b.len() == 4 {
        IpAddr::from([b[0], b[1], b[2], b[3]])
    } else {
        let mut a = [0; 16];
        a.copy_from_slice(b);
        IpAddr::from(a)
    }
}

fn ep_of(b: &[u8]) -> SocketAddr {
    let n = b.len() - 2;
    SocketAddr::new(addr_of(&b[..n]), u16::from_be_bytes([b[n], b[n + 1]]))
}

/// Reads a document given as a tree, on one of three ways.
fn with_doc<R>(t: &T, m: usize, f: impl FnOnce(&ValueRef) -> R) -> R {
    match m {
        0 => f(&t.bor()),
        1 => {
            let mut b = vec![];
            t.write(&mut b, &mut None);
            let v = ValueRef::decode(&b).expect("own document");
            f(&v)
        }
        _ => {
            let v = t.own();
            f(&v.as_ref())
        }
    }
}

/// Reads a value just saved, on one of four ways.
fn with_saved<R>(v: &Value, m: usize, f: impl FnOnce(&ValueRef) -> R) -> R {
    match m {
        0 => f(&v.as_ref()),
        1 => {
            let b = v.to_vec();
            let d = ValueRef::decode(&b).expect("saved document");
            f(&d)
        }
        2 => {
            let d = Value::decode(&v.to_vec()).expect("saved document");
            f(&d.as_ref())
        }
        _ => {
            let mut b = vec![];
            v.encode(&mut b).expect("saved document");
            let d = ValueRef::decode_with_limits(&b, Some(100), Some(2_000_000)).expect("saved document");
            f(&d)
        }
    }
}

// ------------------------------------------------------------- node state

fn state_json(s: &DhtState) -> J {
    json!({
        "nids": s.nids.iter().map(|(a, i)| { let mut b = i.to_vec(); b.extend(octets(a)); bytes(&b) }).collect::<Vec<_>>(),
        "nodes": s.nodes.iter().map(|a| bytes(&wire(a))).collect::<Vec<_>>(),
        "nodes6": s.nodes6.iter().map(|a| bytes(&wire(a))).collect::<Vec<_>>(),
    })
}

fn gen_octets(r: &mut Rng, v6: bool) -> Vec<u8> {
    let n = if v6 { 16 } else { 4 };
    match r.below(8) {
        0 => vec![0; n],
        1 => vec![255; n],
        2 if v6 => {
            let mut b = vec![0; 10];
            b.extend([255, 255]);
            b.extend(r.bytes(4));
            b
        }
        3 => {
            let mut b = vec![0; n];
            b[n - 1] = 1;
            b
        }
        4 if !v6 => vec![127, 0, 0, 1],
        _ => r.bytes(n),
    }
}

fn gen_ep(r: &mut Rng, v6: bool) -> Vec<u8> {
    let mut b = gen_octets(r, v6);
    let port: u16 = *r.pick(&[0, 1, 80, 255, 256, 6881, 0x1234, 32767, 32768, 65535]);
    b.extend(if r.chance(1, 3) { r.u64() as u16 } else { port }.to_be_bytes());
    b
}

fn gen_nid(r: &mut Rng) -> Vec<u8> {
    let mut b = if r.chance(1, 4) { vec![*r.pick(&[0u8, 255, b'd', b'l']); 20] } else { r.bytes(20) };
    let v6 = r.chance(1, 2);
    b.extend(gen_octets(r, v6));
    b
}

fn gen_list(r: &mut Rng, f: impl Fn(&mut Rng) -> Vec<u8>) -> Vec<Vec<u8>> {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 if r.chance(1, 12) => *r.pick(&[31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300]),
        2 => r.range(5, 20),
        _ => r.range(1, 4),
    };
    let mut v: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        // entries may repeat
        let x = if !v.is_empty() && r.chance(1, 5) { r.pick(&v).clone() } else { f(r) };
        v.push(x);
    }
    v
}

fn gen_entry(r: &mut Rng, base: &[usize]) -> T {
    match r.below(10) {
        0 => T::I(gen_int(r)),
        1 => T::L(vec![T::S(r.bytes(base[0]))]),
        2 => T::D(BTreeMap::new()),
        3 => {
            let n = *r.pick(&[0, 1, 4, 5, 7, 16, 17, 19, 20, 21, 23, 25, 26, 35, 37, 38]);
            T::S(r.bytes(n))
        }
        4 => T::S(gen_str(r, true)),
        _ => {
            let n = *r.pick(base);
            T::S(r.bytes(n))
        }
    }
}

fn gen_state_doc(r: &mut Rng) -> T {
    if r.chance(1, 15) {
        return gen_tree(r, 2, 3, false);
    }
    let mut d = BTreeMap::new();
    for (k, base) in [("node-id", &[24usize, 36, 20][..]), ("nodes", &[6, 18, 12]), ("nodes6", &[18, 6, 36])] {
        match r.below(12) {
            0 => {}
            1 => {
                d.insert(k.to_string(), gen_entry(r, base));
            }
            2 if k == "node-id" => {
                d.insert(k.to_string(), T::S(r.bytes(20)));
            }
            3 => {
                // the older form: one string of many entries
                let n = base[0] * r.below(4);
                d.insert(k.to_string(), T::S(r.bytes(n)));
            }
            _ => {
                let n = if r.chance(1, 25) { r.range(20, 200) } else { r.below(6) };
                d.insert(k.to_string(), T::L((0..n).map(|_| gen_entry(r, base)).collect()));
            }
        }
    }
    for k in ["", "node", "node-i", "node-id ", "node_id", "nodes4", "nodes66", "Nodes", "id", "a", "z"] {
        if r.chance(1, 12) {
            let t = if r.chance(1, 2) { T::L(vec![T::S(r.bytes(6)), T::S(r.bytes(24))]) } else { gen_tree(r, 1, 3, false) };
            d.insert(k.to_string(), t);
        }
    }
    T::D(d)
}

fn load_state(c: &mut Ctx, st: &mut DhtState, t: &T, m: usize) {
    c.op(json!({"f": "sload", "doc": t.json(), "m": m}), || {
        match with_doc(t, m, |v| DhtState::read(v)) {
            Ok(s) => {
                *st = s;
                json!({"k": "ok", "st": state_json(st)})
            }
            Err(e) => json!({"k": "err", "e": format!("{:?}", e.kind())}),
        }
    });
}

/// The list of identifiers under any key of any document.
fn ids_of(c: &mut Ctx, t: &T, key: &str, m: usize) {
    c.op(json!({"f": "sids", "doc": t.json(), "key": bytes(key.as_bytes()), "m": m}), || {
        match with_doc(t, m, |v| dht::state::extract_node_ids(v, key)) {
            Ok(nids) => json!({"k": "ok", "ids": state_json(&DhtState { nids, ..Default::default() })["nids"]}),
            Err(e) => json!({"k": "err", "e": format!("{:?}", e.kind())}),
        }
    });
}

fn cycle_state(c: &mut Ctx, st: &mut DhtState, m: usize, times: usize) {
    c.op(json!({"f": "scycle", "m": m, "times": times}), || {
        for _ in 0..times {
            let v = st.save();
            match with_saved(&v, m, |v| DhtState::read(v)) {
                Ok(s) => *st = s,
                Err(e) => return json!({"k": "err", "e": format!("{:?}", e.kind())}),
            }
        }
        json!({"k": "ok", "st": state_json(st)})
    });
}

fn save_state(c: &mut Ctx, st: &DhtState) {
    c.op(json!({"f": "ssave"}), || {
        let v = st.save();
        json!({"k": "ok", "doc": own_json(&v), "kept": state_json(st)})
    });
}

/// Documents of every old identifier of one value, lists of every size.
fn state_sweep(c: &mut Ctx) {
    let mut olds: Vec<Vec<u8>> = (0..=255u8).map(|x| vec![x; 20]).collect();
    for p in 0..20 {
        for x in &[1u8, 128] {
            let mut b = vec![0; 20];
            b[p] = *x;
            olds.push(b);
            let mut b = vec![255; 20];
            b[p] = !*x;
            olds.push(b);
        }
    }
    for chunk in olds.chunks(8) {
        c.case(json!({"part": "state"}));
        let mut st = DhtState::default();
        for (i, b) in chunk.iter().enumerate() {
            let d = T::D(vec![("node-id".to_string(), T::S(b.clone()))].into_iter().collect());
            load_state(c, &mut st, &d, i % 3);
            save_state(c, &st);
            cycle_state(c, &mut st, i % 4, 1);
        }
    }
    // strings of every length where one identifier or a list belongs
    for n in 0..=84usize {
        c.case(json!({"part": "state"}));
        let mut st = DhtState::default();
        for k in ["node-id", "nodes", "nodes6"] {
            let d = T::D(vec![(k.to_string(), T::S(c.rng.bytes(n)))].into_iter().collect());
            load_state(c, &mut st, &d, n % 3);
        }
        let l = T::L(vec![T::S(c.rng.bytes(n)), T::S(c.rng.bytes(24))]);
        for k in ["node-id", "nodes", "nodes6"] {
            load_state(c, &mut st, &T::D(vec![(k.to_string(), l.clone())].into_iter().collect()), n % 3);
        }
    }
    let most = if c.thorough { 600 } else { 260 };
    for n in [0usize, 1, 2, 7, 8, 9, 15, 16, 17, 24, 25, 26, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 201,
        255, 256, 257, 500, 501, 511, 512, 513].iter().copied().filter(|n| *n <= most) {
        for kind in 0..4 {
            let r = &mut c.rng;
            let v6 = |r: &mut Rng| if kind < 2 { kind == 1 } else { r.chance(1, 2) };
            let mut d = BTreeMap::new();
            let which = if kind == 3 { vec!["node-id", "nodes", "nodes6"] } else { vec![*r.pick(&["nodes", "nodes6", "node-id"])] };
            for w in which {
                let l = (0..n)
                    .map(|_| {
                        let mut b = if w == "node-id" { r.bytes(20) } else { vec![] };
                        let v6 = v6(r);
                        if w == "node-id" { b.extend(gen_octets(r, v6)) } else { b.extend(gen_ep(r, v6)) }
                        T::S(b)
                    })
                    .collect();
                d.insert(w.to_string(), T::L(l));
            }
            c.case(json!({"part": "state"}));
            let mut st = DhtState::default();
            load_state(c, &mut st, &T::D(d), kind % 3);
            save_state(c, &st);
            cycle_state(c, &mut st, (n + kind) % 4, 1);
        }
    }
}

/// C15
pub fn state(c: &mut Ctx) {
    if let Some(docs) = lines(c) {
        for (no, j) in docs.iter().enumerate() {
            c.case(json!({"part": "state"}));
            let mut st = DhtState::default();
            load_state(c, &mut st, &tree(&j["doc"]), no % 3);
            save_state(c, &st);
            cycle_state(c, &mut st, no % 4, 1);
        }
        return;
    }
    state_sweep(c);
    for no in 0..c.n {
        c.case(json!({"part": "state"}));
        let mut st = DhtState::default();
        for _ in 0..c.rng.range(3, 10) {
            match c.rng.below(12) {
                0..=4 => {
                    let w = c.rng.range(1, 3);
                    let cross = c.rng.chance(1, 5);
                    let v = match w {
                        1 => gen_list(&mut c.rng, gen_nid),
                        2 => gen_list(&mut c.rng, |r| gen_ep(r, cross)),
                        _ => gen_list(&mut c.rng, |r| gen_ep(r, !cross)),
                    };
                    let o = json!({"f": "sset", "w": w, "v": v.iter().map(|b| bytes(b)).collect::<Vec<_>>()});
                    c.op(o, || {
                        match w {
                            1 => {
                                st.nids = v
                                    .iter()
                                    .map(|b| (addr_of(&b[20..]), dht::node::NodeId::from_bytes(&b[..20]).unwrap()))
                                    .collect()
                            }
                            2 => st.nodes = v.iter().map(|b| ep_of(b)).collect(),
                            _ => st.nodes6 = v.iter().map(|b| ep_of(b)).collect(),
                        }
                        ok(J::from(0))
                    });
                }
                5 => save_state(c, &st),
                6..=8 => {
                    let m = c.rng.below(4);
                    let t = if no % 3 == 0 { c.rng.range(1, 4) } else { 1 };
                    cycle_state(c, &mut st, m, t);
                }
                9 | 10 => {
                    let t = gen_state_doc(&mut c.rng);
                    let m = c.rng.below(3);
                    load_state(c, &mut st, &t, m);
                    let key = *c.rng.pick(&["node-id", "node-id", "nodes", "nodes6", "", "z"]);
                    ids_of(c, &t, key, m);
                }
                _ => {
                    if c.rng.chance(1, 3) {
                        c.op(json!({"f": "sclear"}), || {
                            st.clear();
                            ok(J::from(0))
                        });
                    }
                }
            }
        }
        save_state(c, &st);
        let m = c.rng.below(4);
        cycle_state(c, &mut st, m, 1);
    }
}

// --------------------------------------------------------------- settings

macro_rules! options {
    ($($n:ident: $k:ident,)*) => {
        const NAMES: &[&str] = &[$(stringify!($n)),*];
        const FLAGS: &[bool] = &[$(options!(@flag $k)),*];
        fn get(s: &DhtSettings) -> Vec<J> {
            vec![$(options!(@get $k s $n)),*]
        }
        fn set(s: &mut DhtSettings, o: usize, v: u64) {
            let mut i = 0;
            $(
                if i == o {
                    options!(@set $k s $n v);
                }
                i += 1;
            )*
            let _ = i;
        }
    };
    (@flag int) => { false };
    (@flag bool) => { true };
    (@get int $s:ident $n:ident) => { bytes($s.$n.to_string().as_bytes()) };
    (@get bool $s:ident $n:ident) => { J::from($s.$n) };
    (@set int $s:ident $n:ident $v:ident) => { $s.$n = $v as usize };
    (@set bool $s:ident $n:ident $v:ident) => { $s.$n = $v != 0 };
}

options! {
    max_peers_reply: int,
    search_branching: int,
    max_fail_count: int,
    max_torrents: int,
    max_dht_items: int,
    max_peers: int,
    max_torrent_search_reply: int,
    restrict_routing_ips: bool,
    restrict_search_ips: bool,
    extended_routing_table: bool,
    aggressive_lookups: bool,
    privacy_lookups: bool,
    enforce_node_id: bool,
    ignore_dark_internet: bool,
    block_timeout: int,
    block_ratelimit: int,
    read_only: bool,
    item_lifetime: int,
    upload_rate_limit: int,
    sample_infohashes_interval: int,
    max_infohashes_sample_count: int,
}

fn gen_opt(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => *r.pick(&[0, 1, 2, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, 1 << 33]),
        1 => *r.pick(&[i64::MAX as u64, i64::MAX as u64 + 1, u64::max_value(), u64::max_value() - 1]),
        2 => r.u64() >> r.below(64),
        _ => r.below(1000) as u64,
    }
}

fn opts_case(c: &mut Ctx) -> DhtSettings {
    let d = DhtSettings::default();
    c.case(json!({"part": "opts", "opts": NAMES.iter().map(|n| bytes(n.as_bytes())).collect::<Vec<_>>(),
        "flags": FLAGS, "defs": get(&d)}));
    d
}

fn load_opts(c: &mut Ctx, s: &mut DhtSettings, t: &T, m: usize) {
    c.op(json!({"f": "oload", "doc": t.json(), "m": m}), || {
        *s = with_doc(t, m, |v| DhtSettings::read(v));
        ok(J::Array(get(s)))
    });
}

fn cycle_opts(c: &mut Ctx, s: &mut DhtSettings, m: usize) {
    c.op(json!({"f": "ocycle", "m": m}), || {
        let v = s.save();
        *s = with_saved(&v, m, |v| DhtSettings::read(v));
        ok(J::Array(get(s)))
    });
}

fn gen_opts_doc(r: &mut Rng) -> T {
    if r.chance(1, 20) {
        return gen_tree(r, 2, 3, false);
    }
    let mut d = BTreeMap::new();
    let some = r.range(1, 4);
    for n in NAMES {
        if r.below(4) >= some {
            continue;
        }
        let v = match r.below(10) {
            0 => T::S(r.below(1000).to_string().into_bytes()),
            1 => T::S(vec![]),
            2 => T::L(vec![T::I(1)]),
            3 => T::D(BTreeMap::new()),
            4 => T::I(gen_int(r)),
            5 => T::I((gen_opt(r) >> 1) as i64),
            _ => T::I(r.below(3) as i64),
        };
        d.insert(n.to_string(), v);
    }
    if r.chance(1, 3) {
        let n = *r.pick(NAMES);
        d.insert(format!("{} ", n), T::I(7));
        d.insert(n[1..].to_string(), T::I(7));
        d.insert("".into(), gen_tree(r, 1, 2, false));
    }
    T::D(d)
}

/// Every option with every notable number.
fn opts_sweep(c: &mut Ctx) {
    let mut vals: Vec<i64> = vec![0, 1, 2, 3, -1, -2, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1];
    for b in [3u32, 7, 8, 15, 16, 24, 31, 32, 33, 40, 48, 53, 62].iter() {
        let x = 1i64 << b;
        vals.extend([x - 1, x, x + 1, -x].iter());
    }
    for o in 0..NAMES.len() {
        let mut s = opts_case(c);
        for (i, v) in vals.iter().enumerate() {
            let d = T::D(vec![(NAMES[o].to_string(), T::I(*v))].into_iter().collect());
            load_opts(c, &mut s, &d, i % 3);
            cycle_opts(c, &mut s, i % 4);
            if !FLAGS[o] {
                let v = *v as u64;
                c.op(json!({"f": "oset", "o": o + 1, "v": bytes(v.to_string().as_bytes())}), || {
                    set(&mut s, o, v);
                    ok(J::from(0))
                });
                cycle_opts(c, &mut s, (i + 1) % 4);
            }
        }
    }
}

/// C16
pub fn opts(c: &mut Ctx) {
    if let Some(docs) = lines(c) {
        for (no, j) in docs.iter().enumerate() {
            if no % c.n.max(1) != 0 {
                continue;
            }
            let mut d = BTreeMap::new();
            for (a, b) in [("i", "v"), ("j", "w")] {
                d.insert(NAMES[j[a].as_u64().unwrap() as usize - 1].to_string(), tree(&j[b]));
            }
            let mut s = opts_case(c);
            load_opts(c, &mut s, &T::D(d), no % 3);
            cycle_opts(c, &mut s, no % 4);
        }
        return;
    }
    opts_sweep(c);
    for _ in 0..c.n {
        let mut s = opts_case(c);
        for _ in 0..c.rng.range(2, 6) {
            match c.rng.below(4) {
                0 | 1 => {
                    for _ in 0..c.rng.range(1, 8) {
                        let o = c.rng.below(NAMES.len());
                        let v = if FLAGS[o] { c.rng.below(2) as u64 } else { gen_opt(&mut c.rng) };
                        let jv = if FLAGS[o] { J::from(v != 0) } else { bytes(v.to_string().as_bytes()) };
                        c.op(json!({"f": "oset", "o": o + 1, "v": jv}), || {
                            set(&mut s, o, v);
                            ok(J::from(0))
                        });
                    }
                }
                2 => {
                    let t = gen_opts_doc(&mut c.rng);
                    let m = c.rng.below(3);
                    load_opts(c, &mut s, &t, m);
                }
                _ => {}
            }
            let m = c.rng.below(4);
            cycle_opts(c, &mut s, m);
        }
    }
}

// ---------------------------------------------------------------- streams

/// Takes or gives a few bytes at a time, interrupted now and then if told so.
struct Drip<S>(S, usize, u64);

fn pause(x: &mut u64) -> io::Result<()> {
    *x = *x / 2 | *x << 63;
    if *x >> 63 == 1 {
        return Err(io::ErrorKind::Interrupted.into());
    }
    Ok(())
}


impl<S: Write> Write for Drip<S> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        pause(&mut self.2)?;
        let n = b.len().min(self.1);
        self.0.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl<S: Read> Read for Drip<S> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        pause(&mut self.2)?;
        let n = b.len().min(self.1);
        self.0.read(&mut b[..n])
    }
}

fn write_to<W: Write>(w: &mut W, a: &[u8], scope: u32) -> io::Result<()> {
    match a.len() {
        4 | 16 => detail::write_address(w, &addr_of(a)),
        _ => {
            let e = match ep_of(a) {
                SocketAddr::V6(e) => SocketAddr::V6(SocketAddrV6::new(*e.ip(), e.port(), scope, scope / 2)),
                e => e,
            };
            detail::write_socket_addr(w, &e)
        }
    }
}

fn read_from<R: Read>(r: &mut R, kind: &str) -> io::Result<Vec<u8>> {
    Ok(match kind {
        "v4" => octets(&detail::read_v4_address(r)?),
        "v6" => octets(&detail::read_v6_address(r)?),
        "v4s" => wire(&detail::read_v4_socket_address(r)?),
        _ => wire(&detail::read_v6_socket_address(r)?),
    })
}

const KINDS: &[&str] = &["v4", "v6", "v4s", "v6s"];

fn gen_addr(r: &mut Rng, kind: &str) -> Vec<u8> {
    match kind {
        "v4" => gen_octets(r, false),
        "v6" => gen_octets(r, true),
        "v4s" => gen_ep(r, false),
        _ => gen_ep(r, true),
    }
}

struct Stream {
    b: Vec<u8>,
    p: usize,
}

fn wire_write(c: &mut Ctx, s: &mut Stream, a: &[u8]) {
    let m = c.rng.below(4);
    let gaps = c.rng.u64() & c.rng.u64();
    let scope = if c.rng.chance(1, 3) { c.rng.u64() as u32 } else { 0 };
    c.op(json!({"f": "write", "a": bytes(a), "m": m}), || {
        let r = match m {
            0 | 1 => write_to(&mut s.b, a, scope),
            2 => write_to(&mut Drip(&mut s.b, 1, 0), a, scope),
            _ => write_to(&mut Drip(&mut s.b, 3, gaps), a, scope),
        };
        match r {
            Ok(()) => json!({"k": "ok", "b": bytes(&s.b)}),
            Err(e) => err(e.kind()),
        }
    });
}

fn wire_read(c: &mut Ctx, s: &mut Stream, kind: &str) -> bool {
    let m = c.rng.below(4);
    let gaps = c.rng.u64() & c.rng.u64();
    let r = c.op(json!({"f": "read", "kind": kind, "m": m}), || {
        let mut cur = Cursor::new(&s.b[..]);
        cur.set_position(s.p as u64);
        let mut rest = &s.b[s.p.min(s.b.len())..];
        let n = rest.len();
        let r = match m {
            0 => read_from(&mut cur, kind).map(|a| (a, cur.position() as usize)),
            1 => read_from(&mut rest, kind).map(|a| (a, s.p + n - rest.len())),
            2 => read_from(&mut Drip(&mut cur, 1, 0), kind).map(|a| (a, cur.position() as usize)),
            _ => read_from(&mut Drip(&mut cur, 3, gaps), kind).map(|a| (a, cur.position() as usize)),
        };
        match r {
            Ok((a, p)) => {
                s.p = p;
                json!({"k": "ok", "err": false, "a": bytes(&a), "p": p})
            }
            Err(_) => json!({"k": "ok", "err": true}),
        }
    });
    r["err"] == false
}

/// C17
pub fn streams(c: &mut Ctx) {
    let open = |c: &mut Ctx| {
        c.case(json!({"part": "wire"}));
        Stream { b: vec![], p: 0 }
    };
    if let Some(docs) = lines(c) {
        for j in docs {
            let mut s = open(c);
            for k in j["w"].as_array().unwrap() {
                let a = gen_addr(&mut c.rng, k.as_str().unwrap());
                wire_write(c, &mut s, &a);
            }
            for k in j["r"].as_array().unwrap() {
                if !wire_read(c, &mut s, k.as_str().unwrap()) {
                    break;
                }
            }
        }
        return;
    }
    for _ in 0..c.n {
        let mut s = open(c);
        for _ in 0..c.rng.range(3, 12) {
            match c.rng.below(8) {
                0..=2 => {
                    let k = *c.rng.pick(KINDS);
                    let a = gen_addr(&mut c.rng, k);
                    wire_write(c, &mut s, &a);
                }
                3 => {
                    let n = c.rng.below(9);
                    let b = c.rng.bytes(n);
                    c.op(json!({"f": "bytes", "b": bytes(&b)}), || {
                        s.b.extend(&b);
                        ok(J::from(0))
                    });
                }
                4..=6 => {
                    let k = *c.rng.pick(KINDS);
                    if wire_read(c, &mut s, k) {
                        continue;
                    }
                    seek(c, &mut s);
                }
                _ => seek(c, &mut s),
            }
        }
    }
}

fn seek(c: &mut Ctx, s: &mut Stream) {
    let p = c.rng.below(s.b.len() + 2);
    c.op(json!({"f": "seek", "p": p}), || {
        s.p = p;
        ok(J::from(0))
    });
}

// --------------------------------------------------------------- messages

fn verify(c: &mut Ctx, t: &T, names: &[String], m: usize) {
    let o = json!({"f": "verify", "doc": t.json(), "names": names.iter().map(|n| bytes(n.as_bytes())).collect::<Vec<_>>(), "m": m});
    c.op(o, || {
        with_doc(t, m, |v| {
            let desc: Vec<_> = names.iter().map(|n| dht::msg::KeyDesc::verif_new(n)).collect();
            let none = ValueRef::with_int(-12345);
            let mut ret = vec![&none; names.len()];
            match dht::msg::verify_message_impl(v, &desc, &mut ret) {
                Ok(()) => json!({"k": "ok", "okay": true, "v": ret.iter().map(|x| bor_json(x)).collect::<Vec<_>>()}),
                Err(_) => json!({"k": "ok", "okay": false}),
            }
        })
    });
}

/// C24
pub fn msgs(c: &mut Ctx) {
    if let Some(docs) = lines(c) {
        for (no, j) in docs.iter().enumerate() {
            c.case(json!({"part": "msg"}));
            let names: Vec<String> =
                j["names"].as_array().unwrap().iter().map(|n| String::from_utf8(to_bytes(n)).unwrap()).collect();
            verify(c, &tree(&j["doc"]), &names, no % 3);
        }
        return;
    }
    for _ in 0..c.n {
        c.case(json!({"part": "msg"}));
        let r = &mut c.rng;
        let pool = ["a", "id", "info_hash", "port", "q", "r", "t", "target", "token", "v", "y", "seq", "k", "", "ID", "tt", "values", "\u{e9}"];
        let t = if r.chance(1, 12) {
            gen_tree(r, 2, 3, false)
        } else {
            let mut d = BTreeMap::new();
            let most = r.chance(2, 3);
            for k in pool {
                if r.chance(if most { 9 } else { 4 }, 10) {
                    // distinct values, so that a swap is seen
                    let v = if r.chance(1, 2) { T::S(format!("v-{}", k).into_bytes()) } else { gen_tree(r, 1, 3, false) };
                    d.insert(k.to_string(), v);
                }
            }
            T::D(d)
        };
        let m = r.below(3);
        let names: Vec<String> = (0..r.below(9)).map(|_| r.pick(&pool).to_string()).collect();
        verify(c, &t, &names, m);
    }
}

