//! Magnet link drivers.

use crate::rec::*;
use crate::stor::{special4, special6};
use crate::text::b32;
use serde_json::{json, Value as J};
use std::net::SocketAddr;
use torrent_rs::verif::{parse_magnet_uri, DownloadPriority, TorrentParams};

fn wire(a: &SocketAddr) -> J {
    let mut v = match a {
        SocketAddr::V4(x) => x.ip().octets().to_vec(),
        SocketAddr::V6(x) => x.ip().octets().to_vec(),
    };
    v.extend(&a.port().to_be_bytes());
    bytes(&v)
}

fn parse(u: &str, view: &str) -> J {
    let p: TorrentParams = match u.parse() {
        Ok(p) => p,
        Err(e) => return err(e),
    };
    let strs = |v: &[String]| -> J { v.iter().map(|x| bytes(x.as_bytes())).collect() };
    match view {
        "ih" => {
            let text = p.to_string();
            let again: Vec<J> = text.parse::<TorrentParams>().iter().map(|q| bytes(&q.info_hash)).collect();
            json!({"k": "ok", "ih": bytes(&p.info_hash), "print": bytes(text.as_bytes()), "again": again})
        }
        "so" => {
            let mut runs: Vec<(usize, usize)> = vec![];
            for (i, x) in p.file_priorities.iter().enumerate() {
                if !matches!(x, DownloadPriority::DontDownload) {
                    match runs.last_mut() {
                        Some(l) if l.1 + 1 == i => l.1 = i,
                        _ => runs.push((i, i)),
                    }
                }
            }
            json!({"k": "ok", "runs": runs, "len": p.file_priorities.len()})
        }
        _ => json!({"k": "ok", "name": bytes(p.name.as_bytes()), "tr": strs(&p.trackers), "tiers": p.tracker_tiers,
            "ws": strs(&p.url_seeds), "pe": p.peers.iter().map(wire).collect::<Vec<_>>(),
            "dht": p.dht_nodes.iter().map(|(h, p)| json!({"h": bytes(h.as_bytes()), "p": p})).collect::<Vec<_>>()}),
    }
}

fn run(c: &mut Ctx, u: &str, view: &str) {
    if view == "why" {
        c.op(json!({"f": "why", "u": bytes(u.as_bytes())}), || match u.parse::<TorrentParams>() {
            Ok(_) => json!({"k": "ok"}),
            Err(e) => err(e),
        });
        return;
    }
    c.op(json!({"f": "magnet", "v": view, "u": bytes(u.as_bytes())}), || parse(u, view));
}

const HASH: &str = "xt=urn:btih:00112233445566778899aAbBcCdDeEfF01234567";

/// Some characters of `s` as escapes.
fn escape(r: &mut Rng, s: &str, den: usize) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        if "&#%+\r\n\t ".contains(ch) || (den > 0 && r.chance(1, den)) {
            if ch == ' ' && r.chance(1, 2) {
                o.push('+');
                continue;
            }
            let mut b = [0; 4];
            for x in ch.encode_utf8(&mut b).bytes() {
                o += &if r.chance(1, 2) { format!("%{:02x}", x) } else { format!("%{:02X}", x) };
            }
        } else {
            o.push(ch);
        }
    }
    o
}

fn gen_xt(r: &mut Rng) -> String {
    let h = match r.below(4) {
        0 => vec![*r.pick(&[0u8, 0xff, 0xf0, 0x0f]); 20],
        _ => r.bytes(20),
    };
    let mut s = if r.chance(1, 2) {
        h.iter().map(|x| format!("{:02x}", x)).collect::<String>()
    } else {
        String::from_utf8(b32(&h, false)).unwrap()
    };
    match r.below(4) {
        0 => s = s.to_uppercase(),
        1 => s = s.chars().map(|x| if r.chance(1, 2) { x.to_ascii_uppercase() } else { x }).collect(),
        _ => {}
    }
    let n = s.len();
    match r.below(14) {
        0 => {
            // one illegal character, often a neighbour of a legal one
            let i = *r.pick(&[0, n - 1, n / 2, n - 8]);
            let x = *r.pick(&["g", "G", "8", "9", "0", "1", "/", ":", "@", "`", "{", "[", "=", " ", "-", "."]);
            s.replace_range(i..i + 1, x);
        }
        1 => {
            let m = r.range(0, n);
            s.truncate(m);
        }
        2 => {
            for _ in 0..r.range(1, 9) {
                s.push(*r.pick(&['a', '2', 'f', '=', '0']));
            }
        }
        3 => {
            // as many bytes, but fewer characters
            let ch = *r.pick(&['é', '€', '😀', 'İ', 'ı', '０']);
            let i = r.below(n - 4);
            s.replace_range(i..i + ch.len_utf8(), &ch.to_string());
        }
        4 => {
            let m = r.range(1, 8);
            s.replace_range(n - m.., &"=".repeat(m));
        }
        5 => s = s.replace('i', "1"),
        6 => {
            // the hash of another length in its own coding
            let k = *r.pick(&[0, 1, 16, 19, 21, 32]);
            let h = r.bytes(k);
            s = if r.chance(1, 2) { String::from_utf8(b32(&h, r.chance(1, 2))).unwrap() } else { h.iter().map(|x| format!("{:02x}", x)).collect() };
        }
        _ => {}
    }
    let p = match r.below(14) {
        0 => *r.pick(&["urn:sha1:", "urn:tree:tiger:", "", "urn:btmh:", "urn:btih", "URN:BTIH:", " urn:btih:", "urn:btih:urn:btih:"]),
        _ => "urn:btih:",
    };
    let den = *r.pick(&[0, 0, 0, 1, 4, 20]);
    let k = if r.chance(1, 16) { *r.pick(&["XT", "xt.1", "x%74", "xt ", "as", "%78%74", "x"]) } else { "xt" };
    format!("{}={}", k, escape(r, &format!("{}{}", p, s), den))
}

fn gen_item(r: &mut Rng, top: usize) -> String {
    let x = r.below(top + 1);
    let y = r.below(top + 1);
    match r.below(16) {
        0 => String::new(),
        1 => format!("{}-", x),
        2 => format!("-{}", x),
        3 => r.pick(&["-", "--", "---", "1--2", "1-2-3", "-1-2", "1-2-"]).to_string(),
        4 => format!("{}-{}", x.max(y) + 1, x.min(y)),
        5 => r.pick(&["10000", "10001", "9999-10000", "10000-10001", "10001-10002", "0-10000", "9999", "0-10001", "4294967296",
                      "18446744073709551616", "9223372036854775807", "9223372036854775808", "99999999999999999999999999", "65536-65537",
                      "5-4294967297", "0-0", "10000-10000"]).to_string(),
        6 => format!("{}{}", r.pick(&["0", "00", "000000000000000000000000"]), x),
        7 => format!("{}-{}", x, x),
        8 | 9 | 10 => format!("{}-{}", x.min(y), x.max(y)),
        _ => format!("{}", x),
    }
}

fn gen_so(r: &mut Rng) -> String {
    let n = match r.below(6) {
        0 => 0,
        1 if r.chance(1, 12) => *r.pick(&[100, 128, 256, 300]),
        1 => r.range(8, 25),
        _ => r.range(1, 6),
    };
    let top = *r.pick(&[3, 9, 40, 300, 10000]);
    let mut s = (0..n).map(|_| gen_item(r, top)).collect::<Vec<_>>().join(",");
    if r.chance(1, 12) {
        let x = *r.pick(&["x", " ", ";", ".", "+", "٣", "é", "\"", "_", "0x1", "%", "a"]);
        let i = r.below(s.len() + 1);
        s.insert_str(i, x);
    }
    if r.chance(1, 12) {
        s = format!(",{},", s);
    }
    let den = *r.pick(&[0, 0, 0, 0, 1, 3]);
    format!("so={}", escape(r, &s, den))
}

fn gen_word(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => "http://tracker.example.org:80/announce?a=b&c=d#e".into(),
        2 => r.pick(&["udp://[::1]:1/", "a b+c", "%41", "%", "%2", "%zz", "a=b=c", "\"q\"", "'", "<>`{}|\\^", "\u{7f}\u{80}", "ſ", "--"]).to_string(),
        3 => {
            let n = r.below(8);
            (0..n).map(|_| crate::ben::gen_char(r)).collect()
        }
        _ => {
            let n = r.range(1, 10);
            (0..n).map(|_| *r.pick(&['a', 'b', '/', ':', '.', '0', ' ', '&', '=', '#', '+', '%', 'Z', '?', ';'])).collect()
        }
    }
}

/// A value, encoded properly or raw.
fn value(r: &mut Rng, w: &str) -> String {
    match r.below(8) {
        0 => w.to_string(),
        1 => {
            // escapes of arbitrary bytes
            let n = r.range(1, 6);
            (0..n).map(|_| format!("%{:02X}", *r.pick(&[0xc3, 0xa9, 0xff, 0x80, 0xe2, 0x82, 0xac, 0xf0, 0x9f, 0x98, 0x80, 0xed, 0xa0, 0x41, 0, 0x0a]))).collect()
        }
        _ => {
            let den = *r.pick(&[0, 1, 3]);
            escape(r, w, den)
        }
    }
}

fn gen_v6(r: &mut Rng) -> String {
    let n = r.range(0, 9);
    let mut g: Vec<String> = (0..n)
        .map(|_| match r.below(10) {
            0 => "".into(),
            1 => "0".into(),
            2 => "00000".into(),
            3 => "g".into(),
            4 => "FfFf".into(),
            5 => "1.2.3.4".into(),
            _ => format!("{:x}", r.below(65536)),
        })
        .collect();
    if r.chance(1, 2) {
        // likely valid
        let m = r.range(0, 7);
        g = (0..if r.chance(1, 2) { 8 } else { m }).map(|_| format!("{:x}", r.below(65536))).collect();
        if g.len() < 8 {
            let i = r.below(g.len() + 1);
            let (a, b) = g.split_at(i);
            return format!("{}::{}", a.join(":"), b.join(":"));
        }
    }
    g.join(":")
}

fn gen_port(r: &mut Rng) -> String {
    match r.below(8) {
        0 => r.pick(&["", "0", "65535", "65536", "-1", "+80", "080", "00000000000080", " 80", "80 ", "x", "4294967376", "18446744073709551696", "8.0", "８０"]).to_string(),
        _ => r.below(65536).to_string(),
    }
}

fn gen_peer(r: &mut Rng) -> String {
    let h = match r.below(8) {
        0 => r.pick(&["localhost", "", "256.1.1.1", "1.2.3", "1.2.3.4.5", "01.2.3.4", "1.2.3.04", "1..2.3", "0.0.0.0", "255.255.255.255", "1.2.3.-4", "0x1.2.3.4"]).to_string(),
        1 | 2 | 3 => {
            let a = gen_v6(r);
            match r.below(8) {
                0 => a,
                1 => format!("[{}%{}]", a, r.pick(&["1", "eth0", "", "4294967295", "4294967296"])),
                2 => format!("[{}", a),
                _ => format!("[{}]", a),
            }
        }
        _ => format!("{}.{}.{}.{}", r.below(256), r.below(256), r.below(256), r.below(256)),
    };
    match r.below(14) {
        0 => h,
        1 => format!("{} :{}", h, gen_port(r)),
        _ => format!("{}:{}", h, gen_port(r)),
    }
}

fn gen_node(r: &mut Rng) -> String {
    match r.below(8) {
        0 => gen_word(r),
        1 => format!("[{}]:{}", gen_v6(r), gen_port(r)),
        2 => gen_peer(r),
        3 => format!("{}:{}", gen_word(r), gen_port(r)),
        _ => format!("node{}.example:{}", r.below(9), r.below(65536)),
    }
}

/// Likely to be valid, so that links are not all refused.
fn good(r: &mut Rng, which: usize) -> String {
    match which {
        0 => format!("x.pe={}.{}.{}.{}:{}", r.below(256), r.below(256), r.below(256), r.below(256), r.below(65536)),
        1 => format!("x.pe=[{:x}::{:x}]:{}", r.below(65536), r.below(65536), r.below(65536)),
        _ => format!("dht=h{}:{}", r.below(9), r.below(65536)),
    }
}

fn gen_param(r: &mut Rng) -> String {
    let w = gen_word(r);
    match r.below(16) {
        0 | 1 => format!("dn={}", value(r, &w)),
        2 | 3 | 4 => format!("tr={}", value(r, &w)),
        5 => format!("ws={}", value(r, &w)),
        6 => {
            let p = gen_peer(r);
            format!("x.pe={}", value(r, &p))
        }
        7 | 8 | 9 => {
            let k = r.below(3);
            good(r, k)
        }
        10 => {
            let p = gen_node(r);
            format!("dht={}", value(r, &p))
        }
        11 => gen_so(r),
        12 => gen_xt(r),
        13 => {
            let k = *r.pick(&[
                "tr.1", "TR", "t%72", "dn ", "kt", "xl", "as", "mt", "x.pe.1", "", "tr+", "w%73", "%64n", "amp;tr", "amp;dn", "tr[]", "tr[0]", "+tr", "tr%00", "x_pe",
                "xs", "ws.1", "dht.1", "x%2epe", "x.peer", "pe", "Dn", "dn%0a", "tracker", "so.1", "%26tr", "url",
            ]);
            format!("{}={}", k, value(r, &w))
        }
        14 => r.pick(&["", "tr", "dn", "ws", "=", "==", "=x", "so", "xl=1", "tr=&", "?", "/", "so="]).to_string(),
        _ => value(r, &w),
    }
}

fn gen_link(r: &mut Rng, view: &str) -> String {
    let n = match r.below(8) {
        0 => r.range(6, 14),
        _ => r.range(0, 5),
    };
    let mut v: Vec<String> = vec![];
    match view {
        "ih" => {
            for _ in 0..n {
                let p = match r.below(4) {
                    0 => {
                        let k = r.below(3);
                        good(r, k)
                    }
                    1 => format!("tr={}", r.below(9)),
                    2 => HASH.into(),
                    _ => gen_xt(r),
                };
                v.push(p);
            }
            let p = gen_xt(r);
            v.push(p);
        }
        "so" => {
            for _ in 0..r.range(1, 3) {
                let p = gen_so(r);
                v.push(p);
            }
            let i = r.below(v.len() + 1);
            v.insert(i, HASH.into());
        }
        _ => {
            for _ in 0..n {
                let p = gen_param(r);
                v.push(p);
            }
            // the same again
            if !v.is_empty() && r.chance(1, 4) {
                for _ in 0..r.range(1, 3) {
                    let p = r.pick(&v).clone();
                    let i = r.below(v.len() + 1);
                    v.insert(i, p);
                }
            }
            // very many, or very long
            if r.chance(1, 150) {
                let n = *r.pick(&[40, 101, 130, 257, 300]);
                let k = r.below(5);
                for i in 0..n {
                    v.push(match k {
                        0 => format!("tr=http://t{}/", i),
                        1 => format!("ws={}", i % 50),
                        2 => format!("x.pe=1.2.{}.{}:{}", i / 256, i % 256, i * 31),
                        3 => format!("dht=n{}:{}", i, i * 31),
                        _ => format!("p{}={}", i, i),
                    });
                }
            }
            if r.chance(1, 150) {
                let n = *r.pick(&[100, 255, 256, 257, 1000, 1025, 2049, 4100]);
                let k = *r.pick(&["tr", "dn", "ws", "zz"]);
                let x: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                v.push(format!("{}={}", k, x));
            }
            if r.chance(15, 16) {
                let i = r.below(v.len() + 1);
                v.insert(i, HASH.into());
            }
        }
    }
    let mut q = String::new();
    let odd = r.chance(1, 8);
    for (i, p) in v.iter().enumerate() {
        if i > 0 {
            q += if odd && r.chance(1, 2) { *r.pick(&["&amp;", ";", "&&", "&?", "&+", "&%26", "&\n", "&#38;", "%26", ","]) } else { "&" };
        }
        q += p;
    }
    if view != "so" && r.chance(1, 10) {
        return match r.below(14) {
            0 => format!("MAGNET:?{}", q),
            1 => format!("  \t magnet:?{}\n ", q),
            2 => format!("http://h/?{}", q),
            3 => format!("magnet?{}", q),
            4 => format!("magnet:{}", q),
            5 => format!("magnet:x/y?{}#{}", q, HASH),
            6 => format!("magnet:/p?{}", q),
            7 => format!("magnet://h/p?{}", q),
            8 => format!("magnet:#?{}", q),
            9 => format!("magnet:??{}?", q),
            10 => format!("ma\tgn\net:?{}", q),
            11 => q,
            12 => String::new(),
            _ => format!("{}:?{}", r.pick(&["xmagnet", "magnets", "magnetx", "magnet+x", "magnet.", "magnet-link", "magne", "m", "magnet2"]), q),
        };
    }
    format!("magnet:?{}", q)
}

fn mutate(r: &mut Rng, u: String) -> String {
    let mut v: Vec<char> = u.chars().collect();
    for _ in 0..r.range(1, 4) {
        let n = v.len();
        if n == 0 {
            return String::new();
        }
        let i = r.below(n);
        match r.below(5) {
            0 => {
                v.remove(i);
            }
            1 => {
                let x = *r.pick(&['&', '=', '%', '+', '#', '?', ':', '-', ',', '\u{0}', '\n', '\t', ' ', '"', 'é', '0']);
                v.insert(i, x);
            }
            2 => v[i] = *r.pick(&['&', '=', '%', ':', '-', ',', '1', 'z', '\u{fffd}']),
            3 => v.truncate(i),
            _ => {
                let j = r.range(i, n.min(i + 12) - 1);
                let w: Vec<char> = v[i..=j].to_vec();
                v.splice(i..i, w);
            }
        }
    }
    v.into_iter().collect()
}

/// Every byte, escaped, somewhere in each kind of value.
fn sweep(c: &mut Ctx, view: &str) {
    for x in 0..=255u8 {
        let e = format!("%{:02x}", x);
        let mut put = |s: &str| {
            let i = c.rng.below(s.len() + 1);
            let mut t = s.to_string();
            // in place of a character, or as one more
            if i < s.len() && c.rng.chance(1, 2) {
                t.replace_range(i..i + 1, &e);
            } else {
                t.insert_str(i, &e);
            }
            t
        };
        let vs: Vec<String> = match view {
            "ih" => {
                let h = HASH.replace("xt=urn:btih:", "");
                let i = (x as usize * 7) % 40;
                let mut t = h.clone();
                t.replace_range(i..i + 1, &e);
                let mut b = "abcdefghijklmnopqrstuvwxyz234567".to_string();
                b.replace_range(i % 32..i % 32 + 1, &e);
                vec![format!("xt=urn:btih:{}", t), format!("xt=urn:btih:{}", b), format!("xt={}{}", put("urn:btih:"), h)]
            }
            "so" => vec![format!("so={}", put("1-3,5")), format!("so={}", put("20,7"))],
            _ => vec![
                format!("dn={}&tr={}&ws={}", put("name"), put("udp://t"), put("http://s")),
                format!("x.pe={}", put("1.2.3.4:80")),
                format!("x.pe={}", put("[fe80::1]:80")),
                format!("dht={}", put("h:80")),
                format!("{}=x", put("tr")),
            ],
        };
        for v in vs {
            c.case(json!({}));
            let u = if view == "ih" { format!("magnet:?{}", v) } else { format!("magnet:?{}&{}", HASH, v) };
            run(c, &u, view);
        }
    }
}

/// Numbers of items and parameters, lengths of values at which the code could switch.
fn scale(c: &mut Ctx, view: &str) {
    let mut ns = vec![];
    for p in [8usize, 10, 16, 32, 64, 100, 128, 200, 256, 500, 512, 1000, 1024] {
        ns.extend([p - 1, p, p + 1]);
    }
    let top = if view == "ih" { 130 } else { 260 } * if c.thorough { 4 } else { 1 };
    let mut vs: Vec<String> = vec![];
    match view {
        "so" => {
            for &n in &ns {
                // single files, ranges and empty items, each of them adding
                let step = c.rng.range(2, 9);
                let k = c.rng.below(4);
                let v: Vec<String> = (0..n)
                    .map(|i| match (k, i % 3) {
                        (0, _) | (1, 0) => format!("{}", i * step),
                        (1, 1) => format!("{}-{}", i * step, i * step + step / 2),
                        (1, _) => String::new(),
                        (2, _) => format!("{}-{}", i * step, i * step),
                        _ => format!("{}", (n - i) * step),
                    })
                    .collect();
                vs.push(format!("so={}", v.join(",")));
                // many selections instead
                if n <= 130 {
                    vs.push(v.join("&so=").replacen("", "so=", 1));
                }
                if n <= 130 {
                    vs.push(format!("so=1,{}7,3-{}9", "0".repeat(n), "0".repeat(n)));
                }
                vs.push(format!("so={}-{}", 3, n));
                vs.push(format!("so={}-{},{}", 10000 - n, 10000, n));
            }
        }
        "all" => {
            for &n in ns.iter().filter(|n| **n <= top) {
                for k in 0..6 {
                    let one = |i: usize| match k {
                        0 => format!("tr=http://t{}/", i),
                        1 => format!("ws={}", i % 50),
                        2 => format!("x.pe=1.2.{}.{}:{}", i / 256, i % 256, i * 31),
                        3 => format!("dht=n{}:{}", i, i * 31),
                        4 => format!("p{}={}", i, i),
                        _ => String::new(),
                    };
                    let v: Vec<String> = (0..n).map(one).collect();
                    vs.push(format!("{}&dn=a&tr=b&ws=c&x.pe=1.2.3.4:5&dht=e:6", v.join("&")));
                }
                let s: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                for k in ["dn", "tr", "ws", "zz"] {
                    vs.push(format!("{}={}&dn2=x", k, s));
                }
                vs.push(format!("dht={}:99", s));
                vs.push(format!("{}=x&tr=y", s));
                vs.push(format!("dn={}", "%61".repeat(n)));
                // addresses with a meaning of their own
                for _ in 0..2 {
                    let (a, b) = (special4(&mut c.rng), special6(&mut c.rng));
                    let port = *c.rng.pick(&[0, 1, 80, 6881, 65535]);
                    vs.push(format!("x.pe={}:{}&x.pe=[{}]:{}", a, port, b, port));
                    vs.push(format!("x.pe=[::ffff:{}]:{}&dht={}:{}&dht=[{}]:{}", a, port, a, port, b, port));
                    vs.push(format!("x.pe=[{}]:{}&x.pe=[::{}]:1&x.pe=[64:ff9b::{}]:9", a.to_ipv6_mapped(), port, a, a));
                }
                vs.push(format!("dht=h:{}99", "0".repeat(n)));
                vs.push(format!("x.pe=1.2.3.4:{}99", "0".repeat(n)));
            }
        }
        "ih" => {
            for &n in ns.iter().filter(|n| **n <= top) {
                // the last of many, and one after many others
                let mut v = vec![HASH.to_string(); n];
                v.push(HASH.to_uppercase().replace("XT=URN:BTIH:", "xt=urn:btih:").replace('0', "f"));
                vs.push(v.join("&"));
                vs.push(format!("{}{}", "a=b&".repeat(n), HASH));
                vs.push(format!("{}&{}", HASH, "xt=urn:sha1:x&".repeat(n)));
            }
        }
        _ => (),
    }
    for v in vs {
        c.case(json!({}));
        let u = if view == "ih" { format!("magnet:?{}", v) } else { format!("magnet:?{}&{}", HASH, v) };
        run(c, &u, view);
    }
}

pub fn magnet(c: &mut Ctx, view: &str) {
    if let Some(p) = c.input.clone() {
        let t = std::fs::read_to_string(p).expect("input");
        for l in t.lines() {
            let j: J = serde_json::from_str(l).expect("json");
            let str_of = |k: &str| String::from_utf8(to_bytes(&j[k])).unwrap();
            c.case(json!({}));
            let u = if j.get("so").is_some() {
                format!("magnet:?{}&so={}", HASH, str_of("so"))
            } else if j.get("pe").is_some() {
                format!("magnet:?{}&x.pe={}", HASH, str_of("pe"))
            } else {
                str_of("u")
            };
            run(c, &u, view);
        }
        return;
    }
    if view != "why" {
        sweep(c, view);
        scale(c, view);
    }
    for _ in 0..c.n {
        c.case(json!({}));
        let mut u = gen_link(&mut c.rng, view);
        if c.rng.chance(1, if view == "all" { 4 } else { 8 }) {
            u = mutate(&mut c.rng, u);
        }
        run(c, &u, view);
    }
}

fn strs(v: &[String]) -> J {
    v.iter().map(|x| bytes(x.as_bytes())).collect()
}

fn params_json(p: &TorrentParams) -> J {
    let prio = |x: &DownloadPriority| match x {
        DownloadPriority::DontDownload => 0,
        DownloadPriority::LowPriority => 1,
        DownloadPriority::DefaultPriority => 2,
        DownloadPriority::TopPriority => 3,
    };
    json!({"ih": bytes(&p.info_hash), "name": bytes(p.name.as_bytes()), "tr": strs(&p.trackers), "tiers": p.tracker_tiers,
        "ws": strs(&p.url_seeds), "pe": p.peers.iter().map(wire).collect::<Vec<_>>(),
        "dht": p.dht_nodes.iter().map(|(h, p)| json!({"h": bytes(h.as_bytes()), "p": p})).collect::<Vec<_>>(),
        "prio": p.file_priorities.iter().map(prio).collect::<Vec<_>>()})
}

fn params_of(j: &J) -> TorrentParams {
    let list = |k: &str| -> Vec<J> { j[k].as_array().unwrap().clone() };
    let text = |j: &J| String::from_utf8(to_bytes(j)).unwrap();
    let mut p = TorrentParams::default();
    p.info_hash.copy_from_slice(&to_bytes(&j["ih"]));
    p.name = text(&j["name"]);
    p.trackers = list("tr").iter().map(text).collect();
    p.tracker_tiers = list("tiers").iter().map(|x| x.as_i64().unwrap() as isize).collect();
    p.url_seeds = list("ws").iter().map(text).collect();
    p.peers = list("pe").iter().map(|x| {
        let b = to_bytes(x);
        let mut o = [0u8; 4];
        o.copy_from_slice(&b[..4]);
        SocketAddr::from((o, u16::from_be_bytes([b[4], b[5]])))
    }).collect();
    p.dht_nodes = list("dht").iter().map(|x| (text(&x["h"]), x["p"].as_u64().unwrap() as u16)).collect();
    p.file_priorities = list("prio").iter().map(|x| match x.as_u64().unwrap() {
        0 => DownloadPriority::DontDownload,
        1 => DownloadPriority::LowPriority,
        2 => DownloadPriority::DefaultPriority,
        _ => DownloadPriority::TopPriority,
    }).collect();
    p
}

fn have(c: &mut Ctx, q: &J) -> TorrentParams {
    let p = params_of(q);
    c.op(json!({"f": "have", "q": q}), || json!({"k": "ok", "q": params_json(&p)}));
    p
}

fn merge_in(c: &mut Ctx, p: &mut TorrentParams, u: &str) {
    c.op(json!({"f": "merge", "u": bytes(u.as_bytes())}), || {
        let good = parse_magnet_uri(u, p).is_ok();
        json!({"k": "ok", "good": good, "q": params_json(p)})
    });
}

fn gen_params(r: &mut Rng) -> J {
    let words = |r: &mut Rng| -> J {
        let n = r.below(4);
        (0..n).map(|_| bytes(gen_word(r).as_bytes())).collect()
    };
    let tr = words(r);
    let n = tr.as_array().unwrap().len();
    // tiers for all, some, none or more
    let m = *r.pick(&[n, n, 0, n / 2, n + 1, n + 3]);
    let tiers: Vec<usize> = (0..m).map(|_| r.below(6)).collect();
    let pe: Vec<J> = (0..r.below(3)).map(|_| bytes(&r.bytes(6))).collect();
    let dht: Vec<J> = (0..r.below(3)).map(|i| json!({"h": bytes(format!("old{}", i).as_bytes()), "p": r.below(65536)})).collect();
    let prio: Vec<usize> = (0..*r.pick(&[0, 0, 1, 3, 8, 30])).map(|_| r.below(4)).collect();
    let name = gen_word(r);
    json!({"ih": bytes(&r.bytes(20)), "name": bytes(name.as_bytes()), "tr": tr, "tiers": tiers, "ws": words(r), "pe": pe,
        "dht": dht, "prio": prio})
}

/// C34: links parsed into parameters that already hold something.
pub fn merge(c: &mut Ctx) {
    if let Some(p) = c.input.clone() {
        for l in std::fs::read_to_string(p).expect("input").lines() {
            let j: J = serde_json::from_str(l).expect("json");
            c.case(json!({}));
            let mut p = have(c, &j["q"]);
            for u in j["us"].as_array().unwrap() {
                merge_in(c, &mut p, std::str::from_utf8(&to_bytes(u)).unwrap());
            }
        }
        return;
    }
    for i in 0..c.n {
        c.case(json!({}));
        let mut p = TorrentParams::default();
        if i % 4 != 0 {
            let q = gen_params(&mut c.rng);
            p = have(c, &q);
        }
        for _ in 0..c.rng.range(1, 6) {
            let r = &mut c.rng;
            let mut v: Vec<String> = vec![];
            for _ in 0..r.below(6) {
                let w = gen_word(r);
                let x = match r.below(12) {
                    0 => format!("dn={}", value(r, &w)),
                    1 | 2 | 3 => format!("tr={}", value(r, &w)),
                    4 => format!("ws={}", value(r, &w)),
                    5 | 6 => {
                        let k = r.below(3);
                        good(r, k)
                    }
                    7 => {
                        let n = r.range(1, 4);
                        let top = *r.pick(&[3, 9, 40]);
                        let s = (0..n).map(|_| {
                            let (x, y) = (r.below(top), r.below(top));
                            match r.below(3) {
                                0 => format!("{}-{}", x.min(y), x.max(y)),
                                1 if r.chance(1, 6) => r.pick(&["5-", "-5", "9-1", "", "0--0", "10001", "99999999999999999999"]).to_string(),
                                _ => x.to_string(),
                            }
                        }).collect::<Vec<_>>().join(",");
                        format!("so={}", s)
                    }
                    8 if r.chance(1, 3) => {
                        let p = gen_peer(r);
                        format!("x.pe={}", value(r, &p))
                    }
                    9 if r.chance(1, 3) => {
                        let p = gen_node(r);
                        format!("dht={}", value(r, &p))
                    }
                    10 if r.chance(1, 3) => gen_xt(r),
                    _ => format!("zz={}", value(r, &w)),
                };
                v.push(x);
            }
            if r.chance(11, 12) {
                let i = r.below(v.len() + 1);
                let h = r.bytes(20);
                v.insert(i, format!("xt=urn:btih:{}", h.iter().map(|x| format!("{:02x}", x)).collect::<String>()));
            }
            let u = format!("magnet:?{}", v.join("&"));
            merge_in(c, &mut p, &u);
        }
    }
}
