//! Torrent file drivers.

use crate::ben::{gen_int, gen_str, gen_tree, T};
use crate::docs::tree;
use crate::rec::*;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt;
use torrent_rs::verif::Torrent;

fn parse(b: &[u8]) -> J {
    match Torrent::verif_parse(b) {
        None => err("none"),
        Some(t) => json!({"k": "ok", "announce": bytes(t.announce.as_bytes()),
            "name": t.name.iter().map(|n| bytes(n.as_bytes())).collect::<Vec<_>>(),
            "plen": bytes(t.piece_len.to_string().as_bytes()), "pieces": bytes(&t.pieces), "single": t.single,
            "files": t.files.iter().map(|(p, n)| json!({"p": bytes(p.as_os_str().as_bytes()), "n": bytes(n.to_string().as_bytes())})).collect::<Vec<_>>()}),
    }
}

fn run(c: &mut Ctx, b: &[u8]) {
    c.op(json!({"f": "torrent", "b": bytes(b)}), || parse(b));
}

fn s(x: &str) -> T {
    T::S(x.as_bytes().to_vec())
}

fn dict(v: Vec<(&str, T)>) -> T {
    T::D(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

fn gen_name(r: &mut Rng, wild: bool) -> T {
    if wild && r.chance(1, 8) {
        return match r.below(4) {
            0 => T::S(r.pick(&[&b"\xff"[..], b"a\xc3", b"\xed\xa0\x80", b"\xc0\xaf"]).to_vec()),
            1 => T::I(gen_int(r)),
            _ => s(r.pick(&["", ".", "..", "/", "/etc", "a/b", "../a", "a/..", "a/", "./a", "//", "a//b", "..a/../b", "a/.", "\0/"])),
        };
    }
    match r.below(6) {
        0 => s(r.pick(&["...", "..a", "a..", ".a", " ", "~", "-", "C:", "a b", "*", "é", "日本", "\n", "\u{7f}", "..\u{200b}", "%2e%2e", "..;"])),
        1 => {
            let n = r.range(1, 6);
            s(&(0..n).map(|_| crate::ben::gen_char(r)).filter(|c| *c != '/' && *c != '\0' && *c != '\\').chain(Some('x')).collect::<String>())
        }
        2 if wild => s(r.pick(&["\0", "a\0b", "\\", "..\\", "a\\b", "C:\\x"])),
        3 => s(&"n".repeat(r.range(1, 300))),
        _ => s(&format!("f{}", r.below(9))),
    }
}

fn gen_size(r: &mut Rng, wild: bool) -> T {
    if wild && r.chance(1, 10) {
        return match r.below(4) {
            0 => s("1"),
            1 => T::L(vec![]),
            _ => T::I(*r.pick(&[-1, i64::MIN, -20])),
        };
    }
    T::I(match r.below(4) {
        0 => *r.pick(&[0, 1, i64::MAX, 1 << 32, (1 << 31) - 1, 1 << 31, 16384]),
        _ => (r.u64() >> r.range(1, 63)) as i64,
    })
}

fn gen_url(r: &mut Rng, wild: bool) -> T {
    if wild && r.chance(1, 6) {
        return match r.below(3) {
            0 => s(r.pick(&["", "a", "/announce", "http", "://h/", "//h/a", "1http://h/", ":80", " ", "h/a:b", "é:x", "ht tp://h/"])),
            1 => T::S(b"http://h/\xff".to_vec()),
            _ => s(r.pick(&["http://", "http://[::1/", "http://h:99999/", "mailto:a", "http:h", "HTTP://H:80/../x", " http://h/a\n", "http://h/%zz é", "data:,"])),
        };
    }
    let port = match r.below(3) {
        0 => format!(":{}", r.range(1, 9999)),
        _ => String::new(),
    };
    s(&format!("{}://{}{}/{}{}", r.pick(&["http", "https", "udp"]), r.pick(&["h", "tracker", "localhost"]), port,
        r.pick(&["", "announce", "a/b/c", "x-y_z0", "//"]), r.pick(&["", "", "?", "?passkey=0a1b"])))
}

fn gen_pieces(r: &mut Rng, wild: bool) -> T {
    if wild && r.chance(1, 10) {
        let n = *r.pick(&[1, 19, 21, 39, 41, 30]);
        return match r.below(4) {
            0 => T::I(20),
            1 => T::L(vec![]),
            _ => T::S(r.bytes(n)),
        };
    }
    let n = *r.pick(&[0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 7, 7, 20]);
    let n = if r.chance(1, 100) { *r.pick(&[52, 255, 256, 257]) } else { n };
    T::S(r.bytes(20 * n))
}

fn gen_file(r: &mut Rng, wild: bool) -> T {
    if wild && r.chance(1, 12) {
        return gen_tree(r, 2, 3, false);
    }
    let n = if wild && r.chance(1, 12) { 0 } else if r.chance(1, 200) { *r.pick(&[20, 64, 130]) } else { *r.pick(&[1, 1, 1, 2, 3, 6]) };
    let mut v = vec![("length", gen_size(r, wild)), ("path", T::L((0..n).map(|_| gen_name(r, wild)).collect()))];
    match r.below(if wild { 12 } else { 40 }) {
        0 => {
            let i = r.below(2);
            v.remove(i);
        }
        1 => v[1].1 = gen_name(r, wild),
        2 => v.push(("attr", s("p"))),
        3 => v.push(("path.utf-8", T::L(vec![s("../x")]))),
        _ => {}
    }
    dict(v)
}

fn gen_meta(r: &mut Rng, wild: bool) -> T {
    let mut info = vec![("name", gen_name(r, wild)), ("piece length", gen_size(r, wild)), ("pieces", gen_pieces(r, wild))];
    let n = if r.chance(1, 100) { *r.pick(&[40, 101, 256, 300]) } else { *r.pick(&[0, 1, 1, 2, 3, 5]) };
    let files = T::L((0..n).map(|_| gen_file(r, wild)).collect());
    match r.below(if wild { 16 } else { 4 }) {
        0 | 1 | 4..=8 => info.push(("length", gen_size(r, wild))),
        9 => {
            info.push(("length", gen_size(r, wild)));
            info.push(("files", files));
        }
        10 => {}
        11 => info.push(("files", gen_tree(r, 2, 3, false))),
        12 => {
            info.push(("length", gen_tree(r, 1, 3, false)));
            info.push(("files", files));
        }
        _ => info.push(("files", files)),
    }
    if r.chance(1, 4) {
        info.push((*r.pick(&["private", "source", "a", "zz", "file", "Length", "name.utf-8"]), gen_tree(r, 2, 2, false)));
    }
    let mut root = vec![("announce", gen_url(r, wild))];
    if wild && r.chance(1, 12) {
        let i = r.below(info.len());
        info.remove(i);
    }
    match r.below(if wild { 24 } else { 1000 }) {
        0 => {}
        1 => root.push(("info", T::L(vec![dict(info)]))),
        2 => {
            root.remove(0);
            root.push(("info", dict(info)));
        }
        3 => {
            // everything one level too high
            root.extend(info);
        }
        _ => root.push(("info", dict(info))),
    }
    if r.chance(1, 3) {
        root.push((*r.pick(&["comment", "created by", "announce-list", "nodes", "infohash", "z"]), gen_tree(r, 2, 3, false)));
    }
    if wild && r.chance(1, 40) {
        return T::L(vec![dict(root)]);
    }
    dict(root)
}

/// Keys that are in use elsewhere and have no meaning here, with values as there.
fn known(r: &mut Rng, place: usize) -> Vec<(&'static str, T)> {
    let words = |v: &[&str]| T::L(v.iter().map(|x| s(x)).collect());
    let all: Vec<(&'static str, T)> = match place {
        0 => vec![
            ("announce-list", T::L(vec![words(&["http://other/a"]), words(&["udp://third:1/"])])),
            ("announce-list", T::L(vec![])),
            ("announce.utf-8", s("http://other/a")),
            ("azureus_properties", dict(vec![("dht_backup_enable", T::I(1))])),
            ("comment", s("c")),
            ("created by", s("x")),
            ("creation date", T::I(1_600_000_000)),
            ("encoding", s(r.pick(&["UTF-8", "GBK", "latin1"]))),
            ("httpseeds", words(&["http://seed/"])),
            ("info hash", T::S(r.bytes(20))),
            ("name", s("outer")),
            ("nodes", T::L(vec![T::L(vec![s("h"), T::I(1)])])),
            ("piece layers", dict(vec![])),
            ("publisher-url", s("http://p/")),
            ("url-list", s("http://seed/")),
            ("website", s("http://w/")),
        ],
        1 => vec![
            ("collections", words(&["c"])),
            ("file tree", dict(vec![("a", dict(vec![("", dict(vec![("length", T::I(5))]))]))])),
            ("file-duration", T::L(vec![T::I(7)])),
            ("md5sum", s(&"0".repeat(32))),
            ("meta version", T::I(*r.pick(&[1, 2, 3]))),
            ("name.utf-8", s("other")),
            ("path", words(&["p"])),
            ("piece size", T::I(7)),
            ("pieces root", T::S(r.bytes(32))),
            ("private", T::I(*r.pick(&[0, 1]))),
            ("publisher", s("p")),
            ("root hash", T::S(r.bytes(20))),
            ("similar", T::L(vec![T::S(r.bytes(20))])),
            ("source", s("s")),
            ("ssl-cert", s("c")),
            ("symlink path", words(&["etc", "passwd"])),
            ("attr", s("x")),
            ("length.utf-8", T::I(3)),
        ],
        _ => vec![
            ("attr", s(r.pick(&["p", "x", "h", "l", "px", "hp", ""]))),
            ("attr", T::I(1)),
            ("crc32", s("01234567")),
            ("ed2k", T::S(r.bytes(16))),
            ("filehash", T::S(r.bytes(20))),
            ("md5sum", s(&"0".repeat(32))),
            ("mtime", T::I(1)),
            ("name", s("n")),
            ("path.utf-8", words(&["other", "name"])),
            ("pieces root", T::S(r.bytes(32))),
            ("sha1", T::S(r.bytes(20))),
            ("symlink path", words(&["..", "x"])),
            ("symlink path", words(&["a"])),
        ],
    };
    let n = r.range(1, 3);
    (0..n).map(|_| all[r.below(all.len())].clone()).collect()
}

/// Good documents that also have other known keys, padding files and the like.
fn rich(c: &mut Ctx) {
    for i in 0..300 {
        let r = &mut c.rng;
        let mut info = vec![("name", gen_name(r, false)), ("piece length", gen_size(r, false)), ("pieces", gen_pieces(r, false))];
        if r.chance(1, 3) {
            info.push(("length", gen_size(r, false)));
        } else {
            let n = r.range(1, 4);
            let fs = (0..n).map(|k| {
                let name = match r.below(6) {
                    0 => s(&format!("_____padding_file_{}_if you see this file, please update to BitComet", k)),
                    1 => s(&format!("{}", r.below(100000))),
                    2 => s(r.pick(&[".DS_Store", "Thumbs.db", "desktop.ini", "CON", "nul.txt", "a.torrent", ".hidden", "x "])),
                    _ => gen_name(r, false),
                };
                let dir = match r.below(4) { 0 => s(".pad"), 1 => gen_name(r, false), _ => name.clone() };
                let path = T::L(if r.chance(1, 2) { vec![name] } else { vec![dir, name] });
                let size = if r.chance(1, 3) { T::I(0) } else { gen_size(r, false) };
                let mut f = vec![("length", size), ("path", path)];
                if r.chance(1, 2) {
                    f.extend(known(r, 2));
                }
                dict(f)
            });
            let fs = fs.collect::<Vec<_>>();
            let mut fs = if r.chance(1, 4) { [fs.clone(), fs].concat() } else { fs };
            if r.chance(1, 4) {
                fs.reverse();
            }
            info.push(("files", T::L(fs)));
        }
        let mut root = vec![("announce", gen_url(r, false))];
        if i % 3 > 0 {
            info.extend(known(r, 1));
        }
        root.push(("info", dict(info)));
        if i % 3 < 2 {
            root.extend(known(r, 0));
        }
        let mut b = vec![];
        dict(root).write(&mut b, &mut None);
        c.case(json!({}));
        run(c, &b);
    }
}

/// Replaces one random node of the tree.
fn replant(r: &mut Rng, t: &mut T) {
    let new = match r.below(5) {
        0 => T::I(gen_int(r)),
        1 => T::S(gen_str(r, false)),
        2 => T::S(b"..".to_vec()),
        3 => T::L(vec![]),
        _ => T::D(BTreeMap::new()),
    };
    plant(r, t, new);
}

fn plant(r: &mut Rng, t: &mut T, new: T) {
    let stop = r.chance(1, 4);
    match t {
        T::L(l) if !l.is_empty() && !stop => {
            let i = r.below(l.len());
            plant(r, &mut l[i], new)
        }
        T::D(d) if !d.is_empty() && !stop => {
            let i = r.below(d.len());
            plant(r, d.values_mut().nth(i).unwrap(), new)
        }
        _ => *t = new,
    }
}

fn base(extra: &[u8]) -> Vec<u8> {
    let mut v = b"d8:announce10:http://h/a4:infod6:lengthi1e4:name1:a12:piece lengthi1e6:pieces0:e1:z".to_vec();
    v.extend(extra);
    v.push(b'e');
    v
}

fn nested(c: &mut Ctx, n: usize) {
    for shape in 0..3 {
        let mut x: Vec<u8> = vec![];
        for i in 0..n {
            x.extend(if shape == 0 || (shape == 1 && i % 2 == 0) { &b"l"[..] } else { b"d0:" });
        }
        x.extend(b"0:");
        x.extend(vec![b'e'; n]);
        let b = base(&x);
        c.case(json!({}));
        c.op(json!({"f": "nested", "n": n, "shape": shape}), || parse(&b));
    }
}

/// Files that are hostile by size: only the verdict is compared.
pub fn deep(c: &mut Ctx) {
    for &n in &[0, 1, 50, 90, 150, 1000, 30000, 1000000] {
        nested(c, n);
    }
}

fn pat(j: usize) -> u8 {
    (j % 250 + j / 250 % 6) as u8
}

/// A file list of n files of m path segments with names of s digits each
/// (or a single file if n = 0) and p piece hashes.
fn wide(c: &mut Ctx, n: usize, m: usize, s: usize, p: usize) {
    let pieces: Vec<u8> = (0..20 * p).map(pat).collect();
    let mut b = b"d8:announce10:http://h/a4:infod".to_vec();
    if n == 0 {
        b.extend(b"6:lengthi7e");
    } else {
        b.extend(b"5:filesl");
        for i in 1..=n {
            b.extend(format!("d6:lengthi{}e4:pathl", i).as_bytes());
            for k in 1..=m {
                b.extend(format!("{}:{:0w$}", s, i * 100 + k, w = s).as_bytes());
            }
            b.extend(b"ee");
        }
        b.extend(b"e");
    }
    b.extend(format!("4:name1:a12:piece lengthi1e6:pieces{}:", pieces.len()).as_bytes());
    b.extend(&pieces);
    b.extend(b"ee");
    c.case(json!({}));
    c.op(json!({"f": "wide", "n": n, "m": m, "s": s, "p": p}), || parse(&b));
}

/// Large torrents in closed form, and every byte in every name.
pub fn big(c: &mut Ctx) {
    let far = c.n > 1;
    let mut v: Vec<usize> = (0..=if far { 300 } else { 70 }).collect();
    for k in 7..if far { 14 } else { 13 } {
        v.extend(vec![(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.extend(vec![99, 100, 101, 999, 1000, 1001, 5000]);
    if far {
        v.extend(vec![9999, 10000, 10001, 20000]);
    }
    for &n in &v {
        wide(c, n, 1, 8, 1);
        wide(c, 0, 1, 8, n);
    }
    for k in vec![2, 3, 4, 5, 8, 16, 31, 32, 33, 63, 64, 65, 99, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 1025, 2048, 4097] {
        wide(c, 1, k, 8, 1);
        wide(c, 2, 2, 8 + k, 1);
        wide(c, k.min(300), 3, 9, k.min(300));
    }
    for n in 0..if far { 700 } else { 130 } {
        let mut b = vec![];
        dict(vec![("announce", s("http://h/a")), ("info", dict(vec![("length", T::I(1)), ("name", s("a")),
            ("piece length", T::I(1)), ("pieces", T::S(vec![7; n]))]))]).write(&mut b, &mut None);
        c.case(json!({}));
        run(c, &b);
    }
    for x in 0..=255u8 {
        for n in vec![vec![x], vec![x, b'b'], vec![b'b', x], vec![b'b', x, b'b'], vec![b'.', x], vec![b'.', b'.', x], vec![x, b'.'], vec![0xc3, x], vec![b'a', 0xc3, x]] {
            for name in vec![true, false] {
                let g = |q: bool| T::S(if q == name { n.clone() } else { b"ok".to_vec() });
                let mut b = vec![];
                dict(vec![("announce", s("http://h/a")), ("info", dict(vec![
                    ("files", T::L(vec![dict(vec![("length", T::I(1)), ("path", T::L(vec![s("d"), g(false)]))])])), ("name", g(true)),
                    ("piece length", T::I(1)), ("pieces", s(""))]))]).write(&mut b, &mut None);
                c.case(json!({}));
                run(c, &b);
            }
        }
    }
}

/// Bytes put in, replaced and left out in every place of small torrents.
pub fn bytesweep(c: &mut Ctx) {
    let all: Vec<u8> = if c.n > 1 { (0..=255).collect() } else { b"iled0129-:x/. \n\0\xff".to_vec() };
    for b in vec![
        b"d8:announce10:http://h/a4:infod6:lengthi12e4:name1:a12:piece lengthi10e6:pieces0:ee".to_vec(),
        b"d8:announce10:http://h/a4:infod5:filesld6:lengthi1e4:pathl1:b1:ceee4:name1:a12:piece lengthi1e6:pieces0:ee".to_vec(),
    ] {
        for i in 0..=b.len() {
            let mut v = vec![];
            if i < b.len() {
                let mut w = b.clone();
                w.remove(i);
                v.push(w);
                v.push(b[..i].to_vec());
            }
            for &x in &all {
                let mut w = b.clone();
                w.insert(i, x);
                v.push(w);
                if i < b.len() {
                    let mut w = b.clone();
                    w[i] = x;
                    v.push(w);
                }
            }
            for w in v {
                c.case(json!({}));
                run(c, &w);
            }
        }
    }
}

pub fn torrent(c: &mut Ctx) {
    if let Some(p) = c.input.clone() {
        let t = std::fs::read_to_string(p).expect("input");
        for l in t.lines() {
            let j: J = serde_json::from_str(l).expect("json");
            let mut b = vec![];
            tree(&j["doc"]).write(&mut b, &mut None);
            c.case(json!({}));
            run(c, &b);
        }
        return;
    }
    rich(c);
    for _ in 0..c.n {
        c.case(json!({}));
        let wild = c.rng.chance(1, 2);
        let mut t = gen_meta(&mut c.rng, wild);
        if c.rng.chance(1, 8) {
            replant(&mut c.rng, &mut t);
        }
        let mut b = vec![];
        if c.rng.chance(1, 6) {
            let mut r = Rng::new(c.rng.u64());
            t.write(&mut b, &mut Some(&mut r));
        } else {
            t.write(&mut b, &mut None);
        }
        if c.rng.chance(1, 8) {
            for _ in 0..c.rng.range(1, 3) {
                if b.is_empty() {
                    break;
                }
                let i = c.rng.below(b.len());
                match c.rng.below(4) {
                    0 => {
                        b.remove(i);
                    }
                    1 => b[i] = *c.rng.pick(b"ield0123:/.-+\xff"),
                    2 => b.truncate(i.max(1)),
                    _ => {
                        let x = *c.rng.pick(b"ield019:/.-\0");
                        b.insert(i, x);
                    }
                }
            }
        }
        run(c, &b);
    }
}
