//! Recording of calls on the code under test.
//!
//! The trace is a line-oriented file: `{"new":cfg}` opens a case, `{"op":..}`
//! is written before a call and `{"r":..}` after it, each line with one write,
//! so that a call which kills or stalls the process leaves its `op` behind.

use serde_json::{json, Value as J};
use std::fs::File;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" {
    /// Processor time of this process in microseconds (C library).
    fn clock() -> std::os::raw::c_long;
}

static TICKS: AtomicU64 = AtomicU64::new(0);

pub struct Ctx {
    out: File,
    pub rng: Rng,
    pub n: usize,
    pub input: Option<String>,
    pub thorough: bool,
}

impl Ctx {
    pub fn new(path: &str, seed: u64, n: usize, input: Option<String>) -> Self {
        std::panic::set_hook(Box::new(|i| {
            // a mistake of the harness itself
            if TICKS.load(Ordering::SeqCst) % 2 == 0 {
                eprintln!("{}", i);
            }
        }));
        std::thread::spawn(|| {
            // A call hangs when it has used 40 s of processor time (or got
            // nowhere in 10 minutes), however busy the machine is.
            let mut last = (u64::MAX, 0, 0);
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let t = TICKS.load(Ordering::SeqCst);
                let used = unsafe { clock() };
                if t == last.0 {
                    last.1 += 1;
                    // odd: inside a call
                    if t % 2 == 1 && (used - last.2 >= 40_000_000 || last.1 >= 1200) {
                        std::process::exit(97);
                    }
                } else {
                    last = (t, 0, used);
                }
            }
        });
        Ctx {
            out: File::create(path).expect("trace file"),
            rng: Rng::new(seed),
            n,
            input,
            thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        }
    }

    fn line(&mut self, j: J) {
        let mut s = j.to_string();
        s.push('\n');
        self.out.write_all(s.as_bytes()).expect("trace write");
    }

    pub fn case(&mut self, cfg: J) {
        self.line(json!({ "new": cfg }));
    }

    /// Records one call. `f` returns the outcome as JSON; a panic is an
    /// outcome of its own.
    pub fn op(&mut self, op: J, f: impl FnOnce() -> J) -> J {
        self.line(json!({ "op": op }));
        TICKS.fetch_add(1, Ordering::SeqCst);
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(j) => j,
            Err(_) => json!({"k": "panic"}),
        };
        TICKS.fetch_add(1, Ordering::SeqCst);
        self.line(json!({ "r": r }));
        r
    }
}

/// Runs `f`, giving its outcome, with a panic as an outcome.
pub fn guard(f: impl FnOnce() -> J) -> J {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(j) => j,
        Err(_) => json!({"k": "panic"}),
    }
}

pub fn ok(v: J) -> J {
    json!({"k": "ok", "v": v})
}

pub fn err<E: std::fmt::Debug>(e: E) -> J {
    json!({"k": "err", "e": format!("{:?}", e)})
}

pub fn bytes(b: &[u8]) -> J {
    J::Array(b.iter().map(|&x| J::from(x)).collect())
}

pub fn to_bytes(j: &J) -> Vec<u8> {
    j.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

/// splitmix64
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn byte(&mut self) -> u8 {
        self.u64() as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
}
