//! DHT storage drivers.

use crate::ben::{gen_char, gen_tree, T};
use crate::rec::*;
use bencode::Value;
use common::sha1::Sha1Hash;
use common::types::{PublicKey, Signature};
use dht::settings::DhtSettings;
use dht::storage::{DefaultDhtStorage, DhtStorage};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};

/// What one case works with; operations refer to it by 1-based index.
#[derive(Default)]
pub struct Pool {
    pub ihs: Vec<Sha1Hash>,
    pub eps: Vec<SocketAddr>,
    places: std::cell::OnceCell<std::collections::HashMap<Vec<u8>, usize>>,
    pub ips: Vec<IpAddr>,
    pub tgs: Vec<Sha1Hash>,
    pub vals: Vec<T>,
    pub bufs: Vec<Vec<u8>>,
    pub sigs: Vec<Signature>,
    pub pks: Vec<PublicKey>,
    pub seqs: Vec<i64>,
    pub nids: Vec<Sha1Hash>,
}

pub fn octets(ip: &IpAddr) -> Vec<u8> {
    match ip {
        IpAddr::V4(a) => a.octets().to_vec(),
        IpAddr::V6(a) => a.octets().to_vec(),
    }
}

pub fn wire(a: &SocketAddr) -> Vec<u8> {
    let mut v = octets(&a.ip());
    v.push((a.port() >> 8) as u8);
    v.push(a.port() as u8);
    v
}

fn sha(b: &[u8]) -> [u8; 20] {
    let mut h = sha1::Sha1::new();
    h.update(b);
    h.digest().bytes()
}

pub fn id(b: [u8; 20]) -> Sha1Hash {
    Sha1Hash::from(b)
}

pub fn rand_id(r: &mut Rng) -> [u8; 20] {
    let mut b = [0; 20];
    for x in b.iter_mut() {
        *x = r.byte();
    }
    b
}

/// Whether the value is that of the tree.
fn same(t: &T, v: &Value) -> bool {
    match (t, v) {
        (T::I(a), Value::Int(b)) => a == b,
        (T::S(a), Value::Bytes(b)) => a[..] == b[..],
        (T::L(a), Value::List(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| same(a, b)),
        (T::D(a), Value::Dict(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|((i, a), (j, b))| i == j && same(a, b)),
        _ => false,
    }
}

impl Pool {
    fn ep_json(&self) -> J {
        self.eps
            .iter()
            .map(|e| json!({"v4": e.is_ipv4(), "h": bytes(&sha(&octets(&e.ip()))[..4])}))
            .collect()
    }
    fn ep_of(&self, v: &Value) -> usize {
        match v {
            Value::Bytes(b) => {
                // (the first of equal ones)
                let places = self.places.get_or_init(|| self.eps.iter().enumerate().rev().map(|(i, e)| (wire(e), i + 1)).collect());
                places.get(b).copied().unwrap_or(0)
            }
            _ => 0,
        }
    }
    fn val_of(&self, v: &Value) -> usize {
        self.vals.iter().position(|t| same(t, v)).map(|i| i + 1).unwrap_or(0)
    }
    fn seq_of(&self, v: &Value) -> i64 {
        match v {
            Value::Int(n) => self.rank(*n),
            _ => -99,
        }
    }
    fn rank(&self, n: i64) -> i64 {
        self.seqs.iter().position(|x| *x == n).map(|i| i as i64 + 1).unwrap_or(-99)
    }
    fn sig_of(&self, v: &Value) -> usize {
        match v {
            Value::Bytes(b) => self.sigs.iter().position(|s| &s[..] == &b[..]).map(|i| i + 1).unwrap_or(0),
            _ => 0,
        }
    }
    fn pk_of(&self, v: &Value) -> usize {
        match v {
            Value::Bytes(b) => self.pks.iter().position(|s| &s[..] == &b[..]).map(|i| i + 1).unwrap_or(0),
            _ => 0,
        }
    }
    fn cfg(&self, st: &DhtSettings, mode: &str) -> J {
        // (more than any history can hold is as good as a thousand million)
        let most = |n: usize| n.min(1_000_000_000);
        json!({"mt": most(st.max_torrents), "mp": most(st.max_peers), "mr": most(st.max_peers_reply), "mi": most(st.max_dht_items),
            "mode": mode, "eps": self.ep_json(),
            "tg": self.tgs.iter().map(|t| bytes(t)).collect::<Vec<_>>(),
            "nids": self.nids.iter().map(|t| bytes(t)).collect::<Vec<_>>(),
            "zero": self.rank(0)})
    }
}

fn opt<X: Into<J>>(o: Option<X>) -> J {
    J::Array(o.into_iter().map(|x| x.into()).collect())
}

fn text(v: &Value) -> J {
    match v {
        Value::Bytes(b) => match std::str::from_utf8(b) {
            Ok(s) => J::Array(s.chars().map(|c| J::from(c as u32)).collect()),
            Err(_) => json!([-1]),
        },
        _ => json!([-2]),
    }
}

fn chars(s: &str) -> J {
    J::Array(s.chars().map(|c| J::from(c as u32)).collect())
}

pub struct Sut<'a> {
    st: DefaultDhtStorage<'a>,
}

type Dict = BTreeMap<String, Value>;

impl<'a> Sut<'a> {
    pub fn new(set: &'a DhtSettings, p: &Pool) -> Self {
        let mut st = DefaultDhtStorage::new(set);
        st.update_node_ids(&p.nids);
        Sut { st }
    }

    fn get(&self, p: &Pool, ih: usize, ns: bool, scrape: bool, req: usize, pre: usize) -> (bool, Dict, Dict) {
        let mut d = Dict::new();
        match pre {
            1 => {
                d.insert("values".into(), Value::List(vec![]));
            }
            2 => {
                d.insert("id".into(), Value::Int(7));
                d.insert("zz".into(), Value::List(vec![Value::Int(1)]));
            }
            _ => {}
        }
        let before = d.clone();
        let mut v = Value::Dict(d);
        let full = self.st.get_peers(&p.ihs[ih - 1], ns, scrape, &p.eps[req - 1], &mut v).expect("get_peers");
        match v {
            Value::Dict(d) => (full, d, before),
            _ => panic!("not a dictionary"),
        }
    }

    fn values(p: &Pool, d: &Dict) -> Vec<usize> {
        match d.get("values") {
            Some(Value::List(l)) => l.iter().map(|v| p.ep_of(v)).collect(),
            Some(_) => vec![0],
            None => vec![],
        }
    }

    pub fn announce(&mut self, c: &mut Ctx, p: &Pool, free: bool, ih: usize, ep: usize, at: &SocketAddr, name: &str, seed: bool) {
        let op = if free {
            json!({"f": "free", "op": "announce"})
        } else {
            json!({"f": "announce", "ih": ih, "ep": ep, "name": chars(name), "seed": seed})
        };
        let st = &mut self.st;
        c.op(op, || {
            st.announce_peer(&p.ihs[ih - 1], at, name, seed);
            json!({"k": "ok"})
        });
    }

    pub fn lookup(&mut self, c: &mut Ctx, p: &Pool, ih: usize, ns: bool, req: usize, pre: usize) {
        c.op(json!({"f": "lookup", "ih": ih, "ns": ns, "req": req}), || {
            let (_, d, before) = self.get(p, ih, ns, false, req, pre);
            let rest = before.iter().all(|(k, v)| k == "values" || d.get(k) == Some(v))
                && d.keys().all(|k| k == "values" || k == "n" || before.contains_key(k));
            json!({"k": "ok", "vals": Self::values(p, &d), "n": opt(d.get("n").map(text)), "rest": rest})
        });
    }

    pub fn many(&mut self, c: &mut Ctx, p: &Pool, ih: usize, ns: bool, req: usize, times: usize) {
        c.op(json!({"f": "many", "ih": ih, "ns": ns, "req": req}), || {
            let (mut min, mut max, mut dups) = (usize::MAX, 0, false);
            let mut union = std::collections::BTreeSet::new();
            for _ in 0..times {
                let (_, d, _) = self.get(p, ih, ns, false, req, 0);
                let v = Self::values(p, &d);
                min = min.min(v.len());
                max = max.max(v.len());
                let s: std::collections::BTreeSet<usize> = v.iter().cloned().collect();
                dups |= s.len() != v.len();
                union.extend(s);
            }
            json!({"k": "ok", "min": min, "max": max, "dups": dups, "union": union})
        });
    }

    pub fn full(&mut self, c: &mut Ctx, p: &Pool, ih: usize, ns: bool, req: usize) {
        let sc = c.rng.chance(1, 4);
        let ns = ns || c.rng.chance(1, 8);
        c.op(json!({"f": "full", "ih": ih, "ns": ns, "sc": sc, "req": req}), || {
            let (full, d, _) = self.get(p, ih, ns, sc, req, 0);
            json!({"k": "ok", "full": full, "vals": Self::values(p, &d)})
        });
    }

    pub fn scrape(&mut self, c: &mut Ctx, p: &Pool, ih: usize, ns: bool, req: usize) {
        c.op(json!({"f": "scrape", "ih": ih, "req": req}), || {
            let (_, d, _) = self.get(p, ih, ns, true, req, 0);
            let bits = |k: &str| -> (Vec<usize>, Option<usize>) {
                match d.get(k) {
                    Some(Value::Bytes(b)) => {
                        ((0..b.len() * 8).filter(|i| b[i / 8] & (1 << (i % 8)) != 0).collect(), Some(b.len()))
                    }
                    Some(_) => (vec![], Some(0)),
                    None => (vec![], None),
                }
            };
            let (sd, ls) = bits("BFsd");
            let (pe, lp) = bits("BFpe");
            let lens: Vec<usize> = ls.into_iter().chain(lp).collect();
            json!({"k": "ok", "sd": sd, "pe": pe, "lens": lens, "hasvals": d.contains_key("values")})
        });
    }

    fn ihere(&self, p: &Pool) -> Vec<usize> {
        (1..=p.tgs.len()).filter(|i| self.st.get_immutable_item(&p.tgs[i - 1], &mut Value::Dict(Dict::new()))).collect()
    }

    fn mhere(&self, p: &Pool) -> Vec<usize> {
        let mut x = 0;
        (1..=p.tgs.len()).filter(|i| self.st.get_mutable_item_seq(&p.tgs[i - 1], &mut x)).collect()
    }

    pub fn iput(&mut self, c: &mut Ctx, p: &Pool, free: bool, t: usize, v: usize, ips: &[usize]) {
        let op = if free { json!({"f": "free", "op": "iput"}) } else { json!({"f": "iput", "t": t, "v": v, "ips": ips}) };
        c.op(op, || {
            for i in ips {
                self.st.put_immutable_item(&p.tgs[t - 1], &p.bufs[v - 1], &p.ips[i - 1]);
            }
            json!({"k": "ok", "here": self.ihere(p)})
        });
    }

    pub fn mput(&mut self, c: &mut Ctx, p: &Pool, free: bool, t: usize, v: usize, sig: usize, seq: usize, pk: usize, salt: &[u8], ips: &[usize]) {
        let op = if free {
            json!({"f": "free", "op": "mput"})
        } else {
            json!({"f": "mput", "t": t, "v": v, "sig": sig, "seq": seq, "pk": pk, "ips": ips})
        };
        c.op(op, || {
            for i in ips {
                self.st.put_mutable_item(&p.tgs[t - 1], &p.bufs[v - 1], &p.sigs[sig - 1], p.seqs[seq - 1], &p.pks[pk - 1], salt, &p.ips[i - 1]);
            }
            json!({"k": "ok", "here": self.mhere(p)})
        });
    }

    pub fn iget(&mut self, c: &mut Ctx, p: &Pool, t: usize, pre: bool) {
        c.op(json!({"f": "iget", "t": t}), || {
            let mut d = Dict::new();
            if pre {
                d.insert("id".into(), Value::Int(5));
            }
            let before = d.clone();
            let mut v = Value::Dict(d);
            let found = self.st.get_immutable_item(&p.tgs[t - 1], &mut v);
            let mut d = v.into_dict().expect("dict");
            let got = d.remove("v").map(|v| p.val_of(&v));
            json!({"k": "ok", "found": found, "v": opt(got), "rest": d == before})
        });
    }

    pub fn mget(&mut self, c: &mut Ctx, p: &Pool, t: usize, seq: usize, force: bool, pre: bool) {
        c.op(json!({"f": "mget", "t": t, "seq": seq, "force": force}), || {
            let mut d = Dict::new();
            if pre {
                d.insert("id".into(), Value::Int(5));
            }
            let before = d.clone();
            let mut v = Value::Dict(d);
            let found = self.st.get_mutable_item(&p.tgs[t - 1], p.seqs[seq - 1], force, &mut v);
            let mut d = v.into_dict().expect("dict");
            let s = d.remove("seq").map(|v| p.seq_of(&v));
            let v = d.remove("v").map(|v| p.val_of(&v));
            let sig = d.remove("sig").map(|v| p.sig_of(&v));
            let pk = d.remove("k").map(|v| p.pk_of(&v));
            json!({"k": "ok", "found": found, "seq": opt(s), "v": opt(v), "sig": opt(sig), "pk": opt(pk), "rest": d == before})
        });
    }

    pub fn mseq(&mut self, c: &mut Ctx, p: &Pool, t: usize) {
        c.op(json!({"f": "mseq", "t": t}), || {
            let mut s = 424242;
            let found = self.st.get_mutable_item_seq(&p.tgs[t - 1], &mut s);
            json!({"k": "ok", "found": found, "seq": if !found && s == 424242 { json!([]) } else { json!([p.rank(s)]) }})
        });
    }

    pub fn nodes(&mut self, c: &mut Ctx, ids: &[Sha1Hash]) {
        c.op(json!({"f": "nodes", "ids": ids.iter().map(|x| bytes(x)).collect::<Vec<_>>()}), || {
            self.st.update_node_ids(ids);
            json!({"k": "ok"})
        });
    }

    pub fn audit(&mut self, c: &mut Ctx, p: &Pool) {
        c.op(json!({"f": "audit"}), || {
            let mut own = self.st.counters();
            own.reset();
            let zero = format!("{:?}", own);
            let text = format!("{:?}", self.st.counters());
            let read = |text: &str, k: &str| -> i64 {
                let k = format!(" {}: ", k);
                let at = text.find(&k).expect("counter") + k.len();
                text[at..].chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect::<String>().parse().expect("number")
            };
            let num = |k: &str| read(&text, k);
            let (mut t, mut n) = (0, 0);
            let v4 = p.eps.iter().position(|e| e.is_ipv4()).unwrap() + 1;
            let v6 = p.eps.iter().position(|e| e.is_ipv6()).unwrap() + 1;
            for ih in 1..=p.ihs.len() {
                let (_, d, _) = self.get(p, ih, false, false, v4, 0);
                if d.contains_key("values") {
                    t += 1;
                    n += Self::values(p, &d).len();
                    n += Self::values(p, &self.get(p, ih, false, false, v6, 0).1).len();
                }
            }
            json!({"k": "ok", "c": [num("torrents"), num("peers"), num("immutable_data"), num("mutable_data")],
                "reset": [read(&zero, "torrents"), read(&zero, "peers"), read(&zero, "immutable_data"), read(&zero, "mutable_data")],
                "held": [t, n, self.ihere(p).len(), self.mhere(p).len()]})
        });
    }
}

// ------------------------------------------------------------------ pools

pub fn special4(r: &mut Rng) -> Ipv4Addr {
    let b = r.bytes(4);
    let o = *r.pick(&[[0, 0, 0, 0], [255, 255, 255, 255], [127, 0, 0, 1], [127, b[1], b[2], b[3]], [10, b[1], b[2], b[3]],
        [192, 168, b[2], b[3]], [172, 16, b[2], b[3]], [169, 254, b[2], b[3]], [224, 0, 0, b[3]], [239, b[1], b[2], b[3]],
        [240, b[1], b[2], b[3]], [192, 0, 2, b[3]], [198, 51, 100, b[3]], [100, 64, b[2], b[3]], [b[0], b[1], b[2], 0],
        [b[0], b[1], b[2], 255], [0, b[1], b[2], b[3]]]);
    o.into()
}

pub fn special6(r: &mut Rng) -> Ipv6Addr {
    let b = r.bytes(16);
    let mut o = [0u8; 16];
    match r.below(9) {
        0 => (),
        1 => o[15] = 1,
        2 => o = [255; 16],
        3 => return special4(r).to_ipv6_mapped(),
        4 => return special4(r).to_ipv6_compatible(),
        n => {
            o.copy_from_slice(&b);
            let p = [[0xfe, 0x80], [0xfc, 0], [0xff, 2], [0x20, 2]][n - 5];
            o[..2].copy_from_slice(&p);
        }
    }
    o.into()
}

fn gen_eps(r: &mut Rng, n: usize) -> Vec<SocketAddr> {
    let mut v: Vec<SocketAddr> = vec![];
    let mut ips4 = vec![Ipv4Addr::new(1, 2, 3, 4)];
    let mut ips6 = vec![Ipv6Addr::new(0x2001, 0xdb8, 0, 0, 0, 0, 0, 1), Ipv4Addr::new(1, 2, 3, 4).to_ipv6_mapped()];
    // those with a meaning of their own
    for _ in 0..2 {
        ips4.push(special4(r));
        ips6.push(special6(r));
    }
    for _ in 0..n / 3 + 1 {
        let b = r.bytes(16);
        ips4.push(Ipv4Addr::new(b[0], b[1], b[2], b[3]));
        let mut o = [0u8; 16];
        o.copy_from_slice(&b);
        ips6.push(o.into());
        // neighbours, differing in one octet
        ips4.push(Ipv4Addr::new(b[0], b[1], b[2], b[3] ^ 1));
        o[15] ^= 0x80;
        ips6.push(o.into());
    }
    let ports = [0u16, 1, 80, 255, 256, 6881, 6882, 65535];
    while v.len() < n {
        let port = if r.chance(1, 3) { r.u64() as u16 } else { *r.pick(&ports) };
        let a = if v.len() % 2 == 0 {
            SocketAddr::V4(SocketAddrV4::new(*r.pick(&ips4), port))
        } else {
            SocketAddr::V6(SocketAddrV6::new(*r.pick(&ips6), port, 0, 0))
        };
        if !v.iter().any(|x| wire(x) == wire(&a)) {
            v.push(a);
        }
    }
    v
}

/// The same endpoint, perhaps with another IPv6 scope or flow label.
fn variant(r: &mut Rng, a: &SocketAddr) -> SocketAddr {
    match a {
        SocketAddr::V6(x) if r.chance(1, 2) => {
            SocketAddr::V6(SocketAddrV6::new(*x.ip(), x.port(), r.below(3) as u32, r.below(3) as u32))
        }
        _ => *a,
    }
}

fn gen_name(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0 | 1 => 0,
        2 => *r.pick(&[99, 100, 101, 150, 257]),
        _ => r.range(1, 6),
    };
    if r.chance(1, 10) {
        // one character over and over, of those that look like nothing
        let c = *r.pick(&[' ', '\0', '\t', '\n', '\u{a0}', '\u{3000}', '\u{feff}', '\u{200b}', '0', '-', '/', '.']);
        return (0..n).map(|_| c).collect();
    }
    if r.chance(1, 2) {
        (0..n).map(|_| gen_char(r)).collect()
    } else {
        (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
    }
}

fn gen_ihs(r: &mut Rng, n: usize) -> Vec<Sha1Hash> {
    let mut v = vec![];
    let base = rand_id(r);
    v.push(id(base));
    while v.len() < n {
        let mut b = base;
        if r.chance(1, 2) {
            b[r.below(20)] ^= 1 << r.below(8);
        } else {
            b = rand_id(r);
        }
        if !v.contains(&id(b)) {
            v.push(id(b));
        }
    }
    v
}

fn gen_vals(r: &mut Rng, n: usize) -> (Vec<T>, Vec<Vec<u8>>) {
    let (mut v, mut bufs): (Vec<T>, Vec<Vec<u8>>) = (vec![], vec![]);
    while v.len() < n {
        let t = match r.below(4) {
            0 => T::S(vec![b'a' + r.below(26) as u8, b'x']),
            1 => T::I(r.below(10) as i64),
            2 if r.chance(1, 4) => {
                let n = *r.pick(&[127, 128, 255, 256, 511, 995, 996, 997, 999, 1000, 1001, 1024, 1025, 4096, 4097, 65535, 65537]);
                T::S(r.bytes(n))
            }
            2 if r.chance(1, 3) => {
                let n = *r.pick(&[5, 8, 9, 16, 17, 31, 32, 33, 64, 65, 99, 100, 101]);
                let mut t = T::I(r.below(5) as i64);
                for i in 0..n {
                    t = if i % 3 == 2 { T::D(vec![("v".to_string(), t)].into_iter().collect()) } else { T::L(vec![t]) };
                }
                t
            }
            3 if r.chance(1, 8) => {
                let n = *r.pick(&[15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]);
                T::L((0..n).map(|i| T::I(i as i64)).collect())
            }
            3 if r.chance(1, 8) => {
                let n = *r.pick(&[16, 64, 127, 128, 129, 255, 256, 257, 600]);
                T::D((0..n).map(|i| (format!("k{}", i), T::I(i as i64))).collect())
            }
            _ => gen_tree(r, 2, 3, false),
        };
        if !v.contains(&t) {
            let mut b = vec![];
            t.write(&mut b, &mut None);
            v.push(t);
            bufs.push(b);
        }
    }
    (v, bufs)
}

/// Addresses no two of which share a bit of a 1024-bit filter, so that an
/// announcer count by filter and an exact one agree.
fn gen_ips(r: &mut Rng, n: usize) -> Vec<IpAddr> {
    let mut v = vec![];
    let mut used = std::collections::HashSet::new();
    while v.len() < n {
        let b = r.bytes(16);
        let ip = if r.chance(1, 8) {
            IpAddr::V4(special4(r))
        } else if r.chance(1, 8) {
            IpAddr::V6(special6(r))
        } else if r.chance(2, 3) {
            IpAddr::V4(Ipv4Addr::new(b[0], b[1], b[2], b[3]))
        } else {
            let mut o = [0u8; 16];
            o.copy_from_slice(&b);
            IpAddr::V6(o.into())
        };
        let h = sha(&octets(&ip));
        let i1 = (h[0] as usize | (h[1] as usize) << 8) % 1024;
        let i2 = (h[2] as usize | (h[3] as usize) << 8) % 1024;
        if i1 != i2 && !used.contains(&i1) && !used.contains(&i2) {
            used.insert(i1);
            used.insert(i2);
            v.push(ip);
        }
    }
    v
}

fn gen_sigs(r: &mut Rng, n: usize) -> Vec<Signature> {
    let base = r.bytes(64);
    (0..n)
        .map(|i| {
            let mut s = Signature::default();
            s.copy_from_slice(&base);
            let at = [0, 63, 31, 32][i % 4];
            s[at] ^= i as u8;
            s
        })
        .collect()
}

fn gen_pks(r: &mut Rng, n: usize) -> Vec<PublicKey> {
    let base = r.bytes(32);
    (0..n)
        .map(|i| {
            let mut s = PublicKey::default();
            s.copy_from_slice(&base);
            let at = [0, 31, 15, 16][i % 4];
            s[at] ^= i as u8;
            s
        })
        .collect()
}

fn gen_seqs(r: &mut Rng) -> Vec<i64> {
    let mut v = vec![0i64];
    let all = [i64::MIN, i64::MIN + 1, -100, -2, -1, 1, 2, 3, 4, 255, 256, 65536, 1 << 31, 1 << 32, (1 << 32) + 1, i64::MAX - 1, i64::MAX];
    while v.len() < 7 {
        let x = *r.pick(&all);
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v.sort();
    v
}

fn items_pool(r: &mut Rng, targets: usize, ips: usize) -> Pool {
    let mut p = Pool::default();
    for _ in 0..r.range(1, 3) {
        p.nids.push(id(rand_id(r)));
    }
    while p.tgs.len() < targets {
        let mut b = [0; 20];
        b.copy_from_slice(r.pick(&p.nids));
        match r.below(5) {
            0 => b = rand_id(r),
            1 => {}
            _ => {
                // a chosen distance to one of the node ids
                let e = if r.chance(1, 2) { r.below(8) } else { r.below(160) };
                b[19 - e / 8] ^= 1 << (e % 8);
                if e > 8 && r.chance(1, 2) {
                    b[19] ^= r.byte();
                }
            }
        }
        if !p.tgs.contains(&id(b)) {
            p.tgs.push(id(b));
        }
    }
    let (v, b) = gen_vals(r, 6);
    p.vals = v;
    p.bufs = b;
    p.ips = gen_ips(r, ips);
    p.sigs = gen_sigs(r, 5);
    p.pks = gen_pks(r, 4);
    p.seqs = gen_seqs(r);
    p
}

fn some_ips(r: &mut Rng, p: &Pool, max: usize) -> Vec<usize> {
    let n = match r.below(4) {
        0 => r.range(1, max),
        1 => *r.pick(&[4, 5, 6, 9, 10, 11]).min(&max),
        _ => r.range(1, 3),
    };
    (0..n).map(|_| r.range(1, p.ips.len())).collect()
}

// ---------------------------------------------------------------- drivers

fn peers_pool(r: &mut Rng, ihs: usize, eps: usize) -> Pool {
    Pool { ihs: gen_ihs(r, ihs), eps: gen_eps(r, eps), nids: vec![id(rand_id(r))], seqs: vec![0], ..Default::default() }
}

/// Sets a limit, unless it is to be one of those that are never reached.
fn limit(o: &mut usize, v: usize) {
    if *o < 1 << 16 {
        *o = v;
    }
}

/// Settings of which those the storage is about are the default ones, and all
/// others anything.
fn settings(r: &mut Rng) -> DhtSettings {
    let mut s = DhtSettings::default();
    for o in [&mut s.max_torrents, &mut s.max_peers, &mut s.max_peers_reply, &mut s.max_dht_items] {
        if r.chance(1, 12) {
            // no number of entries comes near, but narrower numbers end before
            *o = *r.pick(&[1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, usize::max_value(), usize::max_value() >> 1]);
        }
    }
    if r.chance(1, 3) {
        return s;
    }
    for o in [&mut s.restrict_routing_ips, &mut s.restrict_search_ips, &mut s.extended_routing_table, &mut s.aggressive_lookups,
        &mut s.privacy_lookups, &mut s.enforce_node_id, &mut s.ignore_dark_internet, &mut s.read_only] {
        *o = r.chance(1, 2);
    }
    for o in [&mut s.search_branching, &mut s.max_fail_count, &mut s.max_torrent_search_reply, &mut s.block_timeout,
        &mut s.block_ratelimit, &mut s.item_lifetime, &mut s.upload_rate_limit, &mut s.sample_infohashes_interval,
        &mut s.max_infohashes_sample_count] {
        *o = *r.pick(&[0, 1, 2, 20, 1000, usize::max_value()]);
    }
    s
}

/// C06: what lookups list.
pub fn peers(c: &mut Ctx) {
    for i in 0..c.n {
        let (ihs, eps) = (c.rng.range(1, 3), *c.rng.pick(&[2, 4, 8, 16, 30]));
        let p = peers_pool(&mut c.rng, ihs, eps);
        let mut set = settings(&mut c.rng);
        let v = *c.rng.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 100]);
        limit(&mut set.max_peers_reply, v);
        if c.rng.chance(1, 3) {
            let v = c.rng.range(1, 8);
            limit(&mut set.max_peers, v);
            let v = c.rng.range(1, 3);
            limit(&mut set.max_torrents, v);
        }
        c.case(p.cfg(&set, "strict"));
        let mut s = Sut::new(&set, &p);
        let len = c.rng.range(4, 50);
        let seeds = c.rng.below(4);
        for _ in 0..len {
            let ih = c.rng.range(1, ihs);
            let ep = c.rng.range(1, eps);
            if c.rng.chance(2, 3) {
                let name = gen_name(&mut c.rng);
                let at = variant(&mut c.rng, &p.eps[ep - 1]);
                let seed = c.rng.chance(seeds, 4);
                s.announce(c, &p, false, ih, ep, &at, &name, seed);
            } else {
                let ns = c.rng.chance(1, 2);
                let pre = c.rng.below(3);
                s.lookup(c, &p, ih, ns, ep, pre);
            }
        }
        for ih in 1..=ihs {
            for ns in [false, true].iter() {
                for req in 1..=2 {
                    s.lookup(c, &p, ih, *ns, req, 0);
                    if i % 10 == 0 {
                        s.many(c, &p, ih, *ns, req, 600);
                    }
                }
            }
        }
    }
    // long lists
    for big in [60usize, 150, 300, 750, 900, 1200].iter().take(if c.thorough { 6 } else { 4 }) {
        let p = peers_pool(&mut c.rng, 1, *big);
        let mut set = settings(&mut c.rng);
        set.max_peers_reply = *c.rng.pick(&[20, 50, 100]);
        if *big > 200 {
            set.max_peers_reply = *c.rng.pick(&[100, 200, 280, 403]);
        }
        if *big > 700 {
            set.max_peers_reply = *c.rng.pick(&[403, 502, 701, 1004]);
        }
        c.case(p.cfg(&set, "strict"));
        let mut s = Sut::new(&set, &p);
        for ep in 1..=*big {
            let at = p.eps[ep - 1];
            let seed = c.rng.chance(1, 4);
            s.announce(c, &p, false, 1, ep, &at, "", seed);
        }
        for ns in [false, true].iter() {
            for req in 1..=2 {
                s.lookup(c, &p, 1, *ns, req, 0);
                s.many(c, &p, 1, *ns, req, 1500);
            }
        }
    }
}

/// C07: capacities and the full answer.
pub fn capacity(c: &mut Ctx) {
    for _ in 0..c.n {
        let ihs = c.rng.range(1, 5);
        let eps = *c.rng.pick(&[2, 6, 8, 12]);
        let p = peers_pool(&mut c.rng, ihs, eps);
        let mut set = settings(&mut c.rng);
        let v = *c.rng.pick(&[1000, 1000, 1000, 0, 1, 3]);
        limit(&mut set.max_peers_reply, v);
        let v = c.rng.below(4);
        limit(&mut set.max_torrents, v);
        let v = c.rng.range(1, 4);
        limit(&mut set.max_peers, v);
        c.case(p.cfg(&set, "strict"));
        let mut s = Sut::new(&set, &p);
        let len = c.rng.range(4, 40);
        for _ in 0..len {
            let ih = c.rng.range(1, ihs);
            let ep = c.rng.range(1, eps);
            if c.rng.chance(1, 2) {
                let name = gen_name(&mut c.rng);
                let at = variant(&mut c.rng, &p.eps[ep - 1]);
                let seed = c.rng.chance(1, 3);
                s.announce(c, &p, false, ih, ep, &at, &name, seed);
            } else {
                let ns = c.rng.chance(1, 4);
                s.full(c, &p, ih, ns, ep);
            }
        }
        for ih in 1..=ihs {
            for req in 1..=eps {
                s.full(c, &p, ih, false, req);
            }
        }
    }
    crowd(c);
}

/// Many torrents, and many peers of one torrent.
fn crowd(c: &mut Ctx) {
    for k in 0..if c.thorough { 12 } else { 4 } {
        let ihs = if k % 2 == 0 { *c.rng.pick(&[20, 60, 130, 260]) } else { 1 };
        let eps = if k % 2 == 0 { 4 } else { *c.rng.pick(&[60, 140, 300, 560]) };
        let p = peers_pool(&mut c.rng, ihs, eps);
        let mut set = settings(&mut c.rng);
        set.max_peers_reply = *c.rng.pick(&[1000, 100, 7]);
        set.max_torrents = if k % 2 == 0 { ihs - c.rng.range(1, 9) } else { 1 };
        set.max_peers = if k % 2 == 0 { 1 } else { eps / 2 - c.rng.range(1, 9) };
        c.case(p.cfg(&set, "strict"));
        let mut s = Sut::new(&set, &p);
        let mut todo: Vec<(usize, usize)> = (0..ihs).flat_map(|i| (0..eps).map(move |e| (i + 1, e + 1))).collect();
        for i in (1..todo.len()).rev() {
            let j = c.rng.below(i + 1);
            todo.swap(i, j);
        }
        let last = todo.len() - todo.len() / 5;
        for (n, &(ih, ep)) in todo.iter().enumerate() {
            let at = p.eps[ep - 1];
            let seed = c.rng.chance(1, 3);
            s.announce(c, &p, false, ih, ep, &at, "", seed);
            if n >= last || c.rng.chance(1, 10) {
                s.full(c, &p, ih, false, ep);
            }
        }
        for ih in 1..=ihs {
            for req in 1..=eps.min(6) {
                s.full(c, &p, ih, false, req);
            }
        }
    }
}

/// C08: scrape filters.
pub fn scrape(c: &mut Ctx) {
    for i in 0..c.n {
        let big = i % 300 == 9;
        let ihs = if big { 1 } else { c.rng.range(1, 3) };
        let eps = if big { [1500, 240, 700][i / 300 % 3] } else { *c.rng.pick(&[2, 6, 12, 24, 60]) };
        let p = peers_pool(&mut c.rng, ihs, eps);
        let mut set = settings(&mut c.rng);
        if c.rng.chance(1, 2) {
            let v = c.rng.below(6);
            limit(&mut set.max_peers_reply, v);
        }
        if big {
            limit(&mut set.max_peers, 4000);
        }
        c.case(p.cfg(&set, "strict"));
        let mut s = Sut::new(&set, &p);
        let len = if big { eps * 2 } else { c.rng.range(2, eps * 2) };
        for _ in 0..len {
            let ih = c.rng.range(1, ihs);
            let ep = c.rng.range(1, eps);
            if c.rng.chance(4, 5) {
                let at = p.eps[ep - 1];
                let seed = c.rng.chance(1, 2);
                s.announce(c, &p, false, ih, ep, &at, "n", seed);
            } else {
                let ns = c.rng.chance(1, 2);
                s.scrape(c, &p, ih, ns, ep);
            }
        }
        for ih in 1..=ihs {
            for req in 1..=2 {
                let ns = c.rng.chance(1, 2);
                s.scrape(c, &p, ih, ns, req);
            }
        }
    }
}

/// C09, C10: items, with room for all ("m", "i" or both kinds of puts).
pub fn items(c: &mut Ctx, mutable: bool) {
    for _ in 0..c.n {
        let tn = c.rng.range(2, 5);
        let p = items_pool(&mut c.rng, tn, 12);
        let mut set = settings(&mut c.rng);
        let v = if c.rng.chance(1, 2) { c.rng.range(1, 4) } else { 700 };
        limit(&mut set.max_dht_items, v);
        c.case(p.cfg(&set, "weak"));
        let mut s = Sut::new(&set, &p);
        let len = c.rng.range(4, 40);
        for _ in 0..len {
            let r = &mut c.rng;
            let t = r.range(1, tn);
            let v = r.range(1, p.vals.len());
            let ips = some_ips(r, &p, 3);
            let pre = r.chance(1, 2);
            match r.below(if mutable { 10 } else { 8 }) {
                0..=2 if !mutable => s.iput(c, &p, false, t, v, &ips),
                0..=3 if mutable => {
                    let (sig, seq, pk) = (r.range(1, 5), r.range(1, p.seqs.len()), r.range(1, 4));
                    let salt = if r.chance(1, 2) { vec![] } else { r.bytes(3) };
                    s.mput(c, &p, false, t, v, sig, seq, pk, &salt, &ips);
                }
                3 => {
                    let (sig, seq, pk) = (r.range(1, 5), r.range(1, p.seqs.len()), r.range(1, 4));
                    s.mput(c, &p, true, t, v, sig, seq, pk, b"", &ips);
                }
                4 if mutable => s.iput(c, &p, true, t, v, &ips),
                5 | 6 if mutable => s.mseq(c, &p, t),
                _ if mutable => {
                    let (seq, force) = (r.range(1, p.seqs.len()), r.chance(1, 3));
                    s.mget(c, &p, t, seq, force, pre);
                }
                _ => s.iget(c, &p, t, pre),
            }
        }
        for t in 1..=tn {
            if mutable {
                s.mseq(c, &p, t);
                for seq in 1..=p.seqs.len() {
                    s.mget(c, &p, t, seq, false, false);
                }
                s.mget(c, &p, t, 1, true, true);
            } else {
                s.iget(c, &p, t, false);
            }
        }
    }
}

/// C11: eviction.
pub fn evict(c: &mut Ctx) {
    evict_crowds(c);
    for i in 0..c.n {
        let large = i % 400 == 7;
        let tn = if large { c.rng.range(15, 60) } else { c.rng.range(3, 8) };
        let p = items_pool(&mut c.rng, tn, 40);
        let mut set = settings(&mut c.rng);
        let v = *c.rng.pick(&[0, 1, 2, 2, 3, 3, 4, 5]);
        limit(&mut set.max_dht_items, v);
        if large {
            set.max_dht_items = tn - c.rng.range(1, 12);
        }
        c.case(p.cfg(&set, "strict"));
        let mut s = Sut::new(&set, &p);
        let len = if large { 3 * tn } else { c.rng.range(6, 40) };
        let both = c.rng.chance(1, 3);
        let m = c.rng.chance(1, 2);
        for _ in 0..len {
            let r = &mut c.rng;
            let t = r.range(1, tn);
            let v = r.range(1, p.vals.len());
            let ips = some_ips(r, &p, 36);
            if r.chance(1, 6) {
                // only looked at
                let pre = r.chance(1, 2);
                if both || !m {
                    s.iget(c, &p, t, pre);
                }
                if both || m {
                    let (seq, force) = (c.rng.range(1, p.seqs.len()), c.rng.chance(1, 2));
                    s.mget(c, &p, t, seq, force, pre);
                    s.mseq(c, &p, t);
                }
                continue;
            }
            let r = &mut c.rng;
            if r.chance(1, 25) {
                let mut ids = vec![];
                for _ in 0..r.range(1, 4) {
                    ids.push(if r.chance(1, 2) { r.pick(&p.tgs).clone() } else { id(rand_id(r)) });
                }
                s.nodes(c, &ids);
            } else if if both { r.chance(1, 2) } else { m } {
                let (sig, seq, pk) = (r.range(1, 5), r.range(1, p.seqs.len()), r.range(1, 4));
                s.mput(c, &p, false, t, v, sig, seq, pk, b"", &ips);
            } else {
                s.iput(c, &p, false, t, v, &ips);
            }
        }
    }
}

/// C11: items with many announcers, more than one step apart or just not.
fn evict_crowds(c: &mut Ctx) {
    for i in 0..if c.thorough { 400 } else { 48 } {
        let mut p = items_pool(&mut c.rng, 1, 360);
        let r = &mut c.rng;
        let e = r.range(4, 159);
        let own = p.nids[0].clone();
        p.tgs.clear();
        for k in 0..5u8 {
            // ids as far from the node's, or one step further
            let mut b = [0; 20];
            b.copy_from_slice(&own);
            let f = if e < 159 && r.chance(1, 6) { e + 1 } else { e };
            b[19 - f / 8] ^= 1 << (f % 8);
            b[19] ^= k;
            p.tgs.push(id(b));
        }
        p.nids.truncate(1);
        let base = 5 * *r.pick(&[2usize, 6, 8, 9, 12, 13, 20, 25, 26, 32, 40, 50, 51, 52, 60, 64, 65]);
        let mut set = settings(r);
        set.max_dht_items = 3;
        c.case(p.cfg(&set, "strict"));
        let mut s = Sut::new(&set, &p);
        let m = i % 2 == 0;
        let mut put = |c: &mut Ctx, s: &mut Sut, t: usize, ips: &[usize]| {
            if m {
                s.mput(c, &p, false, t, 1, 1, 1, 1, b"", ips)
            } else {
                s.iput(c, &p, false, t, 1, ips)
            }
        };
        let counts = [base - 1, base, *c.rng.pick(&[base + 1, base + 4, base + 5, base + 30])];
        let shift = c.rng.below(3);
        for k in 0..3 {
            let n = counts[(k + shift) % 3];
            let from = c.rng.below(360 - n);
            let ips: Vec<usize> = (from + 1..=from + n).collect();
            let cut = c.rng.range(1, n - 1);
            put(c, &mut s, k + 1, &ips[..cut]);
            // and some of them again
            let again = c.rng.below(cut);
            put(c, &mut s, k + 1, &ips[again..]);
        }
        put(c, &mut s, 4, &[1]);
        // whichever was left out: the new one is the next to go, unless it is nearer
        let ips: Vec<usize> = (1..c.rng.range(2, 12)).collect();
        put(c, &mut s, 5, &ips);
        for t in 1..=5 {
            if m {
                s.mseq(c, &p, t);
            } else {
                s.iget(c, &p, t, false);
            }
        }
    }
}

/// C12: counters.
pub fn counters(c: &mut Ctx) {
    for _ in 0..c.n {
        let tn = c.rng.range(2, 6);
        let mut p = items_pool(&mut c.rng, tn, 12);
        p.ihs = gen_ihs(&mut c.rng, 4);
        p.eps = gen_eps(&mut c.rng, 8);
        let mut set = settings(&mut c.rng);
        let v = c.rng.below(5);
        limit(&mut set.max_dht_items, v);
        let v = c.rng.below(5);
        limit(&mut set.max_torrents, v);
        let v = c.rng.range(1, 4);
        limit(&mut set.max_peers, v);
        let v = 4000;
        limit(&mut set.max_peers_reply, v);
        c.case(p.cfg(&set, "weak"));
        let mut s = Sut::new(&set, &p);
        let len = c.rng.range(4, 40);
        s.audit(c, &p);
        for _ in 0..len {
            let r = &mut c.rng;
            let t = r.range(1, tn);
            let v = r.range(1, p.vals.len());
            let ips = some_ips(r, &p, 3);
            match r.below(4) {
                0 => s.iput(c, &p, true, t, v, &ips),
                1 => {
                    let (sig, seq, pk) = (r.range(1, 5), r.range(1, p.seqs.len()), r.range(1, 4));
                    s.mput(c, &p, true, t, v, sig, seq, pk, b"", &ips);
                }
                _ => {
                    let (ih, ep, seed) = (r.range(1, 4), r.range(1, 8), r.chance(1, 2));
                    let name = gen_name(r);
                    let at = variant(r, &p.eps[ep - 1]);
                    s.announce(c, &p, true, ih, ep, &at, &name, seed);
                }
            }
            s.audit(c, &p);
        }
    }
    // many of each kind
    for k in 0..if c.thorough { 6 } else { 3 } {
        let (ihs, eps, tn) = [(1, 5000, 2), (300, 4, 5), (3, 60, 300)][k % 3];
        let mut p = items_pool(&mut c.rng, tn, 12);
        p.ihs = gen_ihs(&mut c.rng, ihs);
        p.eps = gen_eps(&mut c.rng, eps);
        let mut set = settings(&mut c.rng);
        for o in [&mut set.max_dht_items, &mut set.max_torrents, &mut set.max_peers].iter_mut() {
            **o = *c.rng.pick(&[200, 255, 256, 270, 4500, 70000]);
        }
        if k == 0 {
            set.max_peers = 70000;
        }
        set.max_peers_reply = 70000;
        c.case(p.cfg(&set, "weak"));
        let mut s = Sut::new(&set, &p);
        for i in 0..ihs * eps {
            let (ih, ep, seed) = (i / eps + 1, i % eps + 1, c.rng.chance(1, 2));
            let at = p.eps[ep - 1];
            s.announce(c, &p, true, ih, ep, &at, "", seed);
            if i % 257 == 3 {
                s.audit(c, &p);
            }
        }
        for i in 0..tn * 2 {
            let v = c.rng.range(1, p.vals.len());
            if i % 2 == 0 {
                s.iput(c, &p, true, i / 2 + 1, v, &[1]);
            } else {
                s.mput(c, &p, true, i / 2 + 1, v, 1, 1, 1, b"", &[2]);
            }
            if i % 57 == 3 {
                s.audit(c, &p);
            }
        }
        s.audit(c, &p);
    }
}

// --------------------------------------------- histories of the model checker

fn apply(c: &mut Ctx, s: &mut Sut, p: &Pool, o: &J, free: bool) {
    let n = |k: &str| o[k].as_u64().unwrap() as usize;
    let ips = || -> Vec<usize> { o["ips"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() };
    match o["f"].as_str().unwrap() {
        "announce" => {
            let name: String = o["name"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8 as char).collect();
            let at = p.eps[n("ep") - 1];
            s.announce(c, p, free, n("ih"), n("ep"), &at, &name, o["seed"].as_bool().unwrap());
        }
        "iput" => s.iput(c, p, free, n("t"), n("v"), &ips()),
        "mput" => s.mput(c, p, free, n("t"), n("v"), n("sig"), n("seq"), n("key"), b"", &ips()),
        f => panic!("no operation {}", f),
    }
}

/// Every state TLC reached, then every operation in it, then what the property
/// (`n`: 6 to 12) looks at.
pub fn list(c: &mut Ctx) {
    let what = c.n;
    let input = std::fs::read_to_string(c.input.clone().unwrap()).unwrap();
    let lines: Vec<J> = input.lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let head = lines.iter().find(|l| l.get("ops").is_some()).expect("operations").clone();
    let ops = head["ops"].as_array().unwrap();
    let n = |k: &str| head["cfg"][k].as_u64().unwrap() as usize;
    let mut set = settings(&mut c.rng);
    set.max_torrents = n("mt");
    set.max_peers = n("mp");
    set.max_peers_reply = n("mr");
    set.max_dht_items = n("mi");
    let mut p = items_pool(&mut c.rng, 1, 5);
    p.nids = vec![Sha1Hash::min()];
    p.tgs = head["tb"].as_array().unwrap().iter().map(|t| Sha1Hash::from_bytes(&to_bytes(t)).unwrap()).collect();
    p.ihs = gen_ihs(&mut c.rng, 2);
    let e = gen_eps(&mut c.rng, 4);
    p.eps = vec![e[0], e[2], e[1], e[3]];
    p.seqs = vec![-1, 0, 5];
    let (free, mode) = match what {
        9 | 10 => (false, "weak"),
        12 => (true, "weak"),
        _ => (false, "strict"),
    };
    for l in &lines {
        for o in ops {
            c.case(p.cfg(&set, mode));
            let mut s = Sut::new(&set, &p);
            for h in l["h"].as_array().unwrap() {
                apply(c, &mut s, &p, h, free);
            }
            apply(c, &mut s, &p, o, free);
            match what {
                12 => s.audit(c, &p),
                9 => {
                    let t = o["t"].as_u64().unwrap() as usize;
                    for seq in 1..=3 {
                        s.mget(c, &p, t, seq, false, false);
                    }
                    s.mget(c, &p, t, 1, true, false);
                }
                10 => {
                    for t in 1..=p.tgs.len() {
                        s.iget(c, &p, t, false);
                    }
                }
                11 => {}
                _ => {
                    let ih = o["ih"].as_u64().unwrap() as usize;
                    let ep = o["ep"].as_u64().unwrap() as usize;
                    let other = [2, 1, 4, 3][ep - 1];
                    for (ih, req) in [(ih, ep), (ih, other), (3 - ih, ep)].iter().cloned() {
                        match what {
                            6 => {
                                s.lookup(c, &p, ih, false, req, 0);
                                s.lookup(c, &p, ih, true, req, 0);
                            }
                            7 => s.full(c, &p, ih, false, req),
                            _ => s.scrape(c, &p, ih, false, req),
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ replies

/// C37: one reply that several fetches fill.
struct Shared<'a> {
    s: Sut<'a>,
    d: Dict,
}

impl Shared<'_> {
    fn reply(p: &Pool, d: &Dict) -> J {
        let bits = |k: &str| -> J {
            match d.get(k) {
                Some(Value::Bytes(b)) => json!([(0..b.len() * 8).filter(|i| b[i / 8] & (1 << (i % 8)) != 0).collect::<Vec<_>>()]),
                Some(_) => json!([[99999]]),
                None => json!([]),
            }
        };
        let vals = match d.get("values") {
            Some(Value::List(_)) => json!([Sut::values(p, d)]),
            _ => json!([]),
        };
        json!({"n": opt(d.get("n").map(text)), "vals": vals, "bad": d.get("values").map_or(false, |v| v.as_list().is_none()),
            "sd": bits("BFsd"), "pe": bits("BFpe"), "seq": opt(d.get("seq").map(|v| p.seq_of(v))), "v": opt(d.get("v").map(|v| p.val_of(v))),
            "sig": opt(d.get("sig").map(|v| p.sig_of(v))), "k": opt(d.get("k").map(|v| p.pk_of(v)))})
    }

    /// Entries no fetch has business with.
    fn rest(d: &Dict) -> Dict {
        let own = ["n", "values", "BFsd", "BFpe", "seq", "v", "sig", "k"];
        d.iter().filter(|(k, _)| !own.contains(&&k[..])).map(|(k, v)| (k.clone(), v.clone())).collect()
    }

    fn reset(&mut self, c: &mut Ctx, p: &Pool, w: usize) {
        let r = &mut c.rng;
        let mut d = Dict::new();
        if w > 0 {
            // as another store may have filled it
            d.insert("n".into(), Value::with_str("Z"));
            d.insert("v".into(), p.vals[5].own());
            d.insert("k".into(), Value::from(&p.pks[3][..]));
            if r.chance(1, 2) {
                d.insert("sig".into(), Value::from(&p.sigs[4][..]));
                d.insert("seq".into(), Value::with_int(p.seqs[0]));
            }
            d.insert("values".into(), Value::List(vec![Value::from(&wire(&p.eps[r.below(p.eps.len())])[..]), Value::with_str("x"), Value::with_int(3)]));
            for k in ["id", "", "BF", "value", "p", "token", "nodes", "salt", "cas", "samples"] {
                if r.chance(1, 3) {
                    d.insert(k.into(), gen_tree(r, 1, 2, false).own());
                }
            }
            if r.chance(1, 3) {
                d.insert("BFsd".into(), Value::from(&r.bytes(256)[..]));
            }
        }
        if w > 1 {
            let v = [Value::with_int(1), Value::with_str("le"), Value::Dict(Dict::new())];
            d.insert("values".into(), r.pick(&v).clone());
        }
        self.d = d;
        let q = Self::reply(p, &self.d);
        c.op(json!({"f": "reset", "w": w}), || json!({"k": "ok", "q": q}));
    }

    fn fetch(&mut self, c: &mut Ctx, p: &Pool, op: J) {
        let n = |k: &str| op[k].as_u64().unwrap_or(0) as usize;
        let b = |k: &str| op[k].as_bool().unwrap_or(false);
        let f = op["f"].as_str().unwrap().to_string();
        let st = &mut self.s.st;
        let d = &mut self.d;
        c.op(op.clone(), || {
            let before = Self::rest(d);
            let mut v = Value::Dict(d.clone());
            let mut failed = false;
            match &f[..] {
                "iget" => {
                    st.get_immutable_item(&p.tgs[n("t") - 1], &mut v);
                }
                "mget" => {
                    st.get_mutable_item(&p.tgs[n("t") - 1], p.seqs[n("seq") - 1], b("force"), &mut v);
                }
                _ => failed = st.get_peers(&p.ihs[n("ih") - 1], b("ns"), f == "scrape", &p.eps[n("req") - 1], &mut v).is_err(),
            }
            *d = v.into_dict().expect("dict");
            json!({"k": "ok", "q": Self::reply(p, d), "failed": failed, "rest": Self::rest(d) == before})
        });
    }

    fn other(&mut self, c: &mut Ctx, p: &Pool, ih: usize, ns: bool, scrape: bool, req: usize) {
        let st = &mut self.s.st;
        let all = [Value::with_int(4), Value::with_str("de"), Value::List(vec![]), Value::List(vec![Value::Dict(Dict::new())])];
        let v = c.rng.pick(&all).clone();
        c.op(json!({"f": "other", "ih": ih, "ns": ns, "scrape": scrape, "req": req}), || {
            let mut w = v.clone();
            let r = st.get_peers(&p.ihs[ih - 1], ns, scrape, &p.eps[req - 1], &mut w);
            json!({"k": "ok", "failed": r.is_err(), "same": v == w})
        });
    }
}

pub fn reply(c: &mut Ctx) {
    let mut lines = vec![];
    if let Some(p) = c.input.clone() {
        let t = std::fs::read_to_string(p).expect("input");
        lines = t.lines().map(|l| serde_json::from_str::<J>(l).expect("json")).collect();
    }
    let replay = c.input.is_some();
    for i in 0..if replay { lines.len() } else { c.n } {
        let r = &mut c.rng;
        let tn = 3;
        let mut p = items_pool(r, tn, 6);
        let en = if replay { 6 } else { *r.pick(&[4, 8, 16]) };
        p.ihs = gen_ihs(r, 3);
        p.eps = gen_eps(r, en);
        let mut set = settings(r);
        if !replay {
            let v = *r.pick(&[1000, 100, 9, 4, 1, 0]);
            limit(&mut set.max_peers_reply, v);
            let v = *r.pick(&[1, 2, 9]);
            limit(&mut set.max_torrents, v);
        }
        c.case(p.cfg(&set, "strict"));
        let mut s = Shared { s: Sut::new(&set, &p), d: Dict::new() };
        if replay {
            for (ih, ep, n, seed) in [(1, 1, "A", false), (1, 3, "", true), (1, 2, "", false), (2, 5, "", true)] {
                s.s.announce(c, &p, false, ih, ep, &p.eps[ep - 1], n, seed);
            }
            s.s.iput(c, &p, false, 1, 1, &[1]);
            s.s.mput(c, &p, false, 1, 2, 1, 5, 1, b"", &[1]);
            s.s.mput(c, &p, false, 2, 3, 2, 6, 2, b"", &[1]);
            for o in lines[i]["h"].as_array().unwrap() {
                match o["f"].as_str() {
                    Some("reset") => s.reset(c, &p, o["w"].as_u64().unwrap() as usize),
                    _ => s.fetch(c, &p, o.clone()),
                }
            }
            continue;
        }
        for _ in 0..c.rng.range(6, 40) {
            let r = &mut c.rng;
            let (ih, t, req) = (r.range(1, 3), r.range(1, tn), r.range(1, en));
            let (ns, force) = (r.chance(1, 3), r.chance(1, 2));
            let (v, sig, seq, pk) = (r.range(1, 6), r.range(1, 5), r.range(1, p.seqs.len()), r.range(1, 4));
            match r.below(16) {
                0..=3 => {
                    let name = if r.chance(1, 2) { gen_name(r) } else { String::new() };
                    s.s.announce(c, &p, false, ih, req, &p.eps[req - 1], &name, ns);
                }
                4 => s.s.iput(c, &p, false, t, v, &[1]),
                5 => s.s.mput(c, &p, false, t, v, sig, seq, pk, b"", &[1]),
                6 => {
                    let w = r.below(3);
                    s.reset(c, &p, w);
                }
                7 => s.other(c, &p, ih, ns, force, req),
                8 | 9 | 10 => s.fetch(c, &p, json!({"f": "lookup", "ih": ih, "ns": ns, "req": req})),
                11 | 12 => s.fetch(c, &p, json!({"f": "scrape", "ih": ih, "ns": ns, "req": req})),
                13 => s.fetch(c, &p, json!({"f": "iget", "t": t})),
                _ => s.fetch(c, &p, json!({"f": "mget", "t": t, "seq": seq, "force": force})),
            }
        }
    }
}
