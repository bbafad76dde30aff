//! Conformance harness: drives the real crate and writes one JSON event per
//! call; TLC decides whether each event is allowed by the specification.
mod algo;
mod bulk;
mod elem;
mod exec;
mod handle;
mod out;
mod part;
mod probe;
mod session;

use elem::*;
use out::*;
use session::*;
use std::io::Read;

/// script line: `op;handle;K,lo,hi,P|...;n,n;0,1` or `open;len;kindclass;twinlens`
fn parse(s: &str) -> Cmd {
    let f: Vec<&str> = s.split(';').collect();
    let g = |k: usize| f.get(k).cloned().unwrap_or("");
    let nums = |t: &str| t.split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<usize>().unwrap()).collect::<Vec<_>>();
    Cmd {
        op: f[0].to_string(),
        c: g(1).parse().unwrap_or(0),
        a: g(2).split('|').filter(|x| !x.is_empty()).map(|x| {
            let y: Vec<&str> = x.split(',').collect();
            (y[0].as_bytes()[0], y[1].parse().unwrap(), y[2].parse().unwrap(), y[3] == "N")
        }).collect(),
        n: nums(g(3)),
        m: nums(g(4)).iter().map(|x| *x != 0).collect(),
    }
}

struct Blk { len: usize, twins: Vec<(usize, bool)>, cmds: Vec<Cmd> }

fn run_one<E: Elem>(out: &mut Out, kind: Kind, len: usize, twins: Vec<(usize, bool)>, only: bool, src: Src) -> (u64, u64) {
    session::<E>(out, kind, len, twins, only, src)
}
fn dispatch(e: &str, out: &mut Out, kind: Kind, len: usize, twins: Vec<(usize, bool)>, only: bool, src: Src) -> (u64, u64) {
    match e {
        "b1" => run_one::<B1>(out, kind, len, twins, only, src),
        "d24" => run_one::<D>(out, kind, len, twins, only, src),
        "x1040" => run_one::<X>(out, kind, len, twins, only, src),
        "t3" => run_one::<T3>(out, kind, len, twins, only, src),
        "zst" => run_one::<Z>(out, kind, len, twins, only, src),
        _ => run_one::<W>(out, kind, len, twins, only, src),
    }
}
fn kind_of(s: &str) -> Kind { KINDS.iter().find(|k| k.0 == s).expect("kind").1 }

extern "C" { fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32; }
/// A broken build may ask for any amount of memory or disk: it must end here,
/// as a crash of the call, and not take the sandbox down.
fn limits() {
    unsafe {
        setrlimit(9, &[3 << 30, 3 << 30]); // RLIMIT_AS
        setrlimit(1, &[300 << 20, 300 << 20]); // RLIMIT_FSIZE
    }
}

fn main() {
    limits();
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match &a[1][..] {
        // script OUT ELEM KIND HUGE ONLY FILE
        "script" => {
            let mut out = Out::new(&a[2]);
            watchdog(20);
            let mut t = String::new();
            std::fs::File::open(&a[7]).unwrap().read_to_string(&mut t).unwrap();
            let mut blks: Vec<Blk> = vec![];
            for l in t.lines() {
                if l.is_empty() { continue }
                if l.starts_with("open") {
                    let f: Vec<&str> = l.split(';').collect();
                    let tw = f.get(2).unwrap_or(&"").split(',').filter(|x| !x.is_empty()).enumerate().map(|(k, x)| (x.parse().unwrap(), k % 2 == 0)).collect();
                    blks.push(Blk { len: f[1].parse().unwrap(), twins: tw, cmds: vec![] });
                } else { blks.last_mut().unwrap().cmds.push(parse(l)) }
            }
            let (mut r, mut s) = (0, 0);
            for b in &blks {
                let x = dispatch(&a[3], &mut out, kind_of(&a[4]), b.len, b.twins.clone(), a[6] == "1",
                    Src::Script { cmds: &b.cmds, at: 0, huge: a[5].parse().unwrap() });
                r += x.0; s += x.1;
            }
            println!("{{\"ran\":{},\"skipped\":{}}}", r, s);
        }
        // rand OUT SEED SESSIONS STEPS MAXLEN ELEMS KINDS OPS
        "rand" => {
            let mut out = Out::new(&a[2]);
            watchdog(20);
            let seed: u64 = a[3].parse().unwrap();
            let (sessions, steps, maxlen): (usize, usize, usize) = (a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap());
            let elems: Vec<&str> = a[7].split(',').collect();
            let kinds: Vec<&str> = a[8].split(',').collect();
            let ops: Vec<(String, usize)> = a[9].split(',').map(|x| { let (o, w) = x.split_once(':').unwrap(); (o.to_string(), w.parse().unwrap()) }).collect();
            let mut rng = Rng::new(seed);
            let (mut r, mut s) = (0, 0);
            for k in 0..sessions {
                let e = elems[rng.below(elems.len())];
                let kind = kind_of(kinds[rng.below(kinds.len())]);
                if !cfg!(feature = "vec") && !kind.fixed() { continue }
                let len = match rng.below(8) { 0 => rng.below(3), 1 => rng.below(maxlen + 1), _ => rng.below(maxlen.min(10) + 1) };
                let len = if maxlen > 1000 && rng.chance(2, 3) { rng.below(maxlen + 1) } else { len };
                let len = if e == "b1" { len.min(60) } else { len };
                // zst@N: a container of N + len zero sized elements
                let (e, len) = match e.split_once('@') { Some((e, o)) => { ORG.store(o.parse().unwrap(), std::sync::atomic::Ordering::Relaxed); (e, 8 + rng.below(30)) } None => (e, len) };
                let twins: Vec<(usize, bool)> = if !kind.fixed() { vec![] } else {
                    (0..3).map(|_| (match rng.below(6) { 0 => len + 1, 1 => len.saturating_sub(1), 2 => rng.below(len + 3), _ => len }, rng.chance(1, 2))).collect() };
                let only = rng.chance(1, 4);
                let src = Src::Rand(RandCfg { rng: Rng::new(seed.wrapping_mul(1000003).wrapping_add(k as u64)), ops: &ops, steps });
                let x = dispatch(e, &mut out, kind, len, twins, only, src);
                r += x.0; s += x.1;
            }
            println!("{{\"ran\":{},\"skipped\":{}}}", r, s);
        }
        // wide OUT SEED SESSIONS STEPS KINDS OPS: containers of any length up to isize::MAX
        "wide" => {
            WIDE.store(true, std::sync::atomic::Ordering::Relaxed);
            let mut out = Out::new(&a[2]);
            watchdog(20);
            let seed: u64 = a[3].parse().unwrap();
            let (sessions, steps): (usize, usize) = (a[4].parse().unwrap(), a[5].parse().unwrap());
            let kinds: Vec<&str> = a[6].split(',').collect();
            let ops: Vec<(String, usize)> = a[7].split(',').map(|x| { let (o, w) = x.split_once(':').unwrap(); (o.to_string(), w.parse().unwrap()) }).collect();
            let mut rng = Rng::new(seed);
            let (mut r, mut s) = (0, 0);
            for k in 0..sessions {
                let kind = kind_of(kinds[rng.below(kinds.len())]);
                let len = wide_len(&mut rng);
                // a container that can grow must have room for it
                let len = if kind.growable() { len.min(isize::MAX as usize - steps) } else { len };
                let twins = if !kind.fixed() { vec![] } else { (0..3).map(|_| (wide_twin(&mut rng, len), rng.chance(1, 2))).collect() };
                let only = rng.chance(1, 4);
                let src = Src::Rand(RandCfg { rng: Rng::new(seed.wrapping_mul(1000003).wrapping_add(k as u64)), ops: &ops, steps });
                let x = run_one::<Z>(&mut out, kind, len, twins, only, src);
                r += x.0; s += x.1;
            }
            println!("{{\"ran\":{},\"skipped\":{}}}", r, s);
        }
        // algo OUT FILE
        "algo" => {
            let (o, f) = (a[2].clone(), a[3].clone());
            // comparisons that lie can make the quicksorts recurse deeply
            std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
                let mut out = Out::new(&o);
                watchdog(20);
                let t = std::fs::read_to_string(&f).unwrap();
                let (mut r, mut s) = (0, 0);
                for l in t.lines() { if !l.is_empty() { if algo::run(&mut out, &algo::parse(l)) { r += 1 } else { s += 1 } } }
                println!("{{\"ran\":{},\"skipped\":{}}}", r, s);
            }).unwrap().join().unwrap();
        }
        // bulk OUT SEED SECONDS COUNT OPS POLICIES SAMPLE
        "bulk" => {
            std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
                let mut out = Out::new(&a[2]);
                watchdog(20);
                let ops: Vec<&str> = a[6].split(',').collect();
                let (made, odd) = bulk::run(&mut out, a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), &ops, &a[7], a[8].parse().unwrap());
                println!("{{\"ran\":{},\"skipped\":0,\"odd\":{}}}", made, odd);
            }).unwrap().join().unwrap();
        }
        "probe" => std::process::exit(probe::run(&a[2])),
        m => panic!("mode {}", m),
    }
}
