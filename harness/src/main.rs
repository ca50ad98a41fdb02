//! Conformance harness: `vh DRIVER OUT SEED N [INPUT]` runs a driver against
//! the code under test and records every call and outcome in OUT.

mod ben;
mod big;
mod bloom;
mod docs;
mod edit;
mod ident;
mod magnet;
mod rec;
mod stor;
mod text;
mod torrent;

use rec::Ctx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: vh DRIVER OUT SEED N [INPUT]");
        std::process::exit(2);
    }
    let mut c = Ctx::new(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a.get(5).cloned());
    match &a[1][..] {
        "roundtrip" => ben::encode(&mut c, "rt"),
        "canon" => ben::encode(&mut c, "canon"),
        "reencode" => ben::reencode(&mut c),
        "decode" => ben::decode(&mut c),
        "limits" => ben::limits(&mut c),
        "agree" => ben::agree(&mut c),
        "why" => ben::why(&mut c),
        "declist" => ben::list(&mut c),
        "deep" => ben::deep(&mut c),
        "big" => big::big(&mut c),
        "peers" => stor::peers(&mut c),
        "capacity" => stor::capacity(&mut c),
        "scrape" => stor::scrape(&mut c),
        "mitems" => stor::items(&mut c, true),
        "iitems" => stor::items(&mut c, false),
        "evict" => stor::evict(&mut c),
        "counters" => stor::counters(&mut c),
        "bloom" => bloom::bloom(&mut c),
        "state" => docs::state(&mut c),
        "opts" => docs::opts(&mut c),
        "streams" => docs::streams(&mut c),
        "msgs" => docs::msgs(&mut c),
        "regs" => ident::regs(&mut c),
        "dist" => ident::dist(&mut c),
        "bound" => ident::bound(&mut c),
        "bounds" => ident::bounds(&mut c),
        "sha1" => ident::sha1(&mut c),
        "sink" => edit::sink(&mut c),
        "edit" => edit::edit(&mut c),
        "order" => edit::order(&mut c),
        "torrent" => torrent::torrent(&mut c),
        "tordeep" => torrent::deep(&mut c),
        "torbig" => torrent::big(&mut c),
        "torbytes" => torrent::bytesweep(&mut c),
        "codec" => text::codec(&mut c),
        "piece" => text::piece(&mut c),
        "mag-ih" => magnet::magnet(&mut c, "ih"),
        "mag-so" => magnet::magnet(&mut c, "so"),
        "mag-all" => magnet::magnet(&mut c, "all"),
        "mag-why" => magnet::magnet(&mut c, "why"),
        "mag-merge" => magnet::merge(&mut c),
        "reply" => stor::reply(&mut c),
        "storelist" => stor::list(&mut c),
        d => {
            eprintln!("no driver {}", d);
            std::process::exit(2);
        }
    }
}
