//! Event output (one JSON object per line), the crash marker and the watchdog.
use std::fs::File;
use std::io::{BufWriter, Write};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const CAP: usize = 1 << 30;
/// TLC's integers are 32 bit: everything from 2^30 up is logged as 2^30.
pub fn sat(x: usize) -> u64 { if wide() { x as u64 } else { x.min(CAP) as u64 } }

/// Wide logs have every number in full, as three limbs of 22 bits, and no
/// contents (the storages are longer than any memory).
pub static WIDE: AtomicBool = AtomicBool::new(false);
pub fn wide() -> bool { WIDE.load(Relaxed) }
/// no storage to look at
pub fn unseen() -> bool { wide() || org() > 0 }
pub fn jnum(x: u64) -> String {
    if wide() { format!("[{},{},{}]", x >> 44, (x >> 22) & 0x3f_ffff, x & 0x3f_ffff) } else { x.min(CAP as u64).to_string() }
}

/// Containers of zero sized elements can be longer than any memory. For those
/// the log shows only the window of positions from ORG on, shifted to start at
/// 0 (the operations used there do not depend on what lies before it).
pub static ORG: AtomicUsize = AtomicUsize::new(0);
pub fn org() -> usize { ORG.load(Relaxed) }
/// a position
pub fn vpos(x: usize) -> usize { let o = org(); if o == 0 || x == 0 { x } else if x >= o { x - o } else { CAP } }
/// a result that may be a position or a count
pub fn vnum(x: usize) -> usize { let o = org(); if o > 0 && x >= o { x - o } else { x } }

pub static BEAT: AtomicU64 = AtomicU64::new(1);

pub struct Out {
    w: BufWriter<File>,
    mark: File,
    pub n: u64,
}

impl Out {
    pub fn new(path: &str) -> Out {
        let w = BufWriter::with_capacity(1 << 16, File::create(path).expect("out file"));
        let mark = File::create(format!("{}.mark", path)).expect("mark file");
        Out { w, mark, n: 0 }
    }
    /// Record what is about to run, so that a crash or a hang can be attributed.
    pub fn mark(&mut self, s: &str) {
        BEAT.fetch_add(1, Relaxed);
        let mut b = [b' '; 400];
        let k = s.len().min(399);
        b[..k].copy_from_slice(&s.as_bytes()[..k]);
        b[399] = b'\n';
        let _ = self.mark.write_all_at(&b, 0);
    }
    pub fn line(&mut self, s: &str) {
        self.w.write_all(s.as_bytes()).expect("write");
        self.w.write_all(b"\n").expect("write");
        self.n += 1;
    }
    pub fn flush(&mut self) { self.w.flush().expect("flush"); }
}
impl Drop for Out {
    fn drop(&mut self) { self.flush(); }
}

/// Ends the process with code 97 when a single call takes longer than `secs`.
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BEAT.load(Relaxed);
            if b == last { idle += 1 } else { idle = 0; last = b }
            if idle > secs * 2 { std::process::exit(97); }
        }
    });
}

pub fn jints<I: IntoIterator<Item = u64>>(it: I) -> String {
    let mut s = String::from("[");
    for (k, x) in it.into_iter().enumerate() {
        if k > 0 { s.push(','); }
        s.push_str(&jnum(x));
    }
    s.push(']');
    s
}
/// (what a broken build reads as an element can be any bit pattern)
pub fn jids(v: &[u32]) -> String { jints(v.iter().map(|&x| sat(x as usize))) }
pub fn jbools(v: &[bool]) -> String {
    let mut s = String::from("[");
    for (k, x) in v.iter().enumerate() {
        if k > 0 { s.push(','); }
        s.push_str(if *x { "true" } else { "false" });
    }
    s.push(']');
    s
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { 
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        if r.0 == 0 { r.0 = 1 }
        for _ in 0..8 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        self.0 = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { ((self.next() >> 11) % n as u64) as usize } }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
}
