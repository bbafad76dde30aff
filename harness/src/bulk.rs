//! Many more algorithm calls than TLC could read: every call is made here and
//! looked at by a quick screen; whatever looks wrong to it (and a sample of
//! the rest) is written out for TLC to judge. The screen only selects.
use crate::algo::{call, Acall, Rec};
use crate::out::*;

fn size(g: &mut Rng, most: usize) -> usize {
    match g.below(16) { 0 | 1 => g.below(12), 2..=5 => g.below(24), 6..=12 => 20 + g.below(50), 13 | 14 => 50 + g.below(150), _ => g.below(most) }
}
fn pattern(g: &mut Rng, n: usize) -> Vec<i64> {
    let m = n.max(1);
    let mut v: Vec<i64> = (0..n as i64).collect();
    let any = |g: &mut Rng, k: usize| g.below(k) as i64;
    match g.below(20) {
        0 => {}
        1 => v.reverse(),
        2 | 3 | 4 => { let k = 2 + g.below(4); for x in v.iter_mut() { *x = any(g, k) } }
        5 => { let k = 1 + g.below(m); for x in v.iter_mut() { *x = any(g, k) } }
        6 | 7 => { let k = 1 + g.below(5); for _ in 0..k { if n > 0 { let i = g.below(n); v[i] = any(g, n + 2) } } }
        8 => for (i, x) in v.iter_mut().enumerate() { *x = i.min(n - i) as i64 },
        9 => for (i, x) in v.iter_mut().enumerate() { *x = i.max(n - i) as i64 },
        10 => { let k = 2 + g.below(9); for (i, x) in v.iter_mut().enumerate() { *x = (i % k) as i64 } }
        11 => { let k = 2 + g.below(6); let o = g.below(k); for (i, x) in v.iter_mut().enumerate() { if i % k != o { *x = any(g, 2 * n + 1) } } }
        12 => { let a = g.below(n + 1); let z = (a + g.below(20)).min(n); for x in v[a..z].iter_mut() { *x = any(g, n + 1) } }
        13 => { let a = g.below(n + 1); for x in v[a..].iter_mut() { *x = any(g, n + 1) } }
        14 => { for x in v.iter_mut() { *x = any(g, 3) } for _ in 0..3 { if n > 0 { let i = [0, n / 2, n - 1, n / 4, n - 1 - n / 4][g.below(5)]; v[i] = [-1, 2000, 1][g.below(3)] } } }
        15 => { let a = g.below(n + 1); v[..a].reverse() }
        16 => { let k = 1 + g.below(8); for b in v.chunks_mut(k) { b.reverse() } }
        _ => { for i in (1..n).rev() { v.swap(i, g.below(i + 1)) } }
    }
    match g.below(8) {
        0 if n > 0 => { let (a, b) = (g.below(n), g.below(n)); v.swap(a, b) }
        1 if n > 0 => { let k = g.below(n); v.rotate_left(k) }
        2 => v.reverse(),
        3 if n > 0 => { let i = g.below(n); v[i] = g.below(n + 1) as i64 - 1 }
        _ => {}
    }
    v
}
fn sorted(mut v: Vec<i64>) -> Vec<i64> { v.sort(); v }

fn make(g: &mut Rng, op: &str, pols: &[u8], elem: &str) -> Acall {
    let pol = (pols[g.below(pols.len())] as char).to_string();
    let slow = op.starts_with("qs") || op.starts_with("is");
    let big = g.chance(1, 1500);
    // longer than 16 bits count
    let huge = !slow && !op.starts_with("zip") && pol == "h" && g.chance(1, if op.starts_with("bs") || op.starts_with("lb") { 300 } else { 4000 });
    let elem = if huge { "p8" } else { elem };
    let n = if huge { 60_000 + g.below(60_000) } else if big && pol == "h" { 2000 + g.below(if slow { 4500 } else { 20_000 }) } else if pol == "h" { size(g, 400) } else { size(g, 120) };
    let k = match &pol[..] { "p" => { let f = 1 + g.below(6); 1 + g.below(1 + n * f) }, "a" => 1 + g.below(50_000), _ => 0 };
    let mut c = Acall { al: op.into(), pol, k, x: vec![], y: vec![], n: vec![], elem: elem.into() };
    if op.starts_with("merge") {
        let n = n.max(1);
        let x = pattern(g, n);
        let le = match g.below(6) { 0 => n, 1 => n / 2, 2 => g.below(n.min(5) + 1), _ => g.below(n + 1) };
        c.x = sorted(x[..le].to_vec());
        c.x.extend(sorted(x[le..].to_vec()));
        let m = match g.below(6) { 0 => le.saturating_sub(1), 1 => le + 1, 2 => le + g.below(9), _ => le };
        c.y = (0..m).map(|_| g.below(50) as i64).collect();
        c.n = vec![le];
    } else if op.starts_with("bs") || op.starts_with("lb") {
        let n = if !big && !huge && g.chance(1, 6) { g.below(1500) } else { n };
        c.x = sorted(pattern(g, n).iter().map(|v| v.abs() * 2).collect());
        let (mut lo, mut hi) = (0, n);
        if op.ends_with('_') && g.chance(2, 3) { lo = g.below(n + 1); hi = lo + g.below(n - lo + 1) }
        let t = if n > 0 && g.chance(5, 6) { c.x[if lo < hi { lo + g.below(hi - lo) } else { g.below(n) }] + g.below(3) as i64 - 1 } else { g.below(30) as i64 };
        c.n = vec![lo, hi, t.max(0) as usize];
        if c.pol == "p" { c.k = 1 + g.below(12) }
    } else if op.starts_with("zip") {
        let (a, b) = if big { (n, 2000 + g.below(20_000)) } else { (size(g, 200), size(g, 200)) };
        let b = if g.chance(1, 3) { a } else { b };
        c.x = (0..a as i64).collect();
        c.y = (0..b as i64).collect();
        let (l1, l2) = (g.below(a + 1), g.below(b + 1));
        let (l1, l2) = if g.chance(1, 3) { (0, 0) } else { (l1, l2) };
        let (h1, h2) = if g.chance(1, 3) { (a, b) } else { (l1 + g.below(a - l1 + 1), l2 + g.below(b - l2 + 1)) };
        c.n = vec![l1, h1, l2, h2, g.below(4)];
        if c.pol != "h" { c.pol = "p".into(); c.k = 1 + g.below(40) }
    } else {
        c.x = pattern(g, n);
        if op == "is2" { let m = if g.chance(4, 5) { n } else { size(g, 60) }; c.y = (0..m).map(|_| g.below(9) as i64).collect() }
        if op.starts_with("copy") || op.starts_with("dot") {
            c.pol = "h".into();
            let m = if g.chance(1, 3) { n } else if huge { 60_000 + g.below(60_000) } else if big { 2000 + g.below(20_000) } else { size(g, 100) };
            c.x = (0..n).map(|_| g.below(200) as i64 - 100).collect();
            c.y = (0..m).map(|_| g.below(200) as i64 - 100).collect();
        }
    }
    c
}

fn perm(v: &[u32], lo: usize, hi: usize) -> bool {
    let mut w = v.to_vec();
    w.sort_unstable();
    w.len() == hi - lo && w.iter().zip(lo as u32 + 1..).all(|(a, b)| *a == b)
}
/// Does the call look wrong? (TLC decides; what is not selected is not judged.)
fn strange(c: &Acall, r: &Rec) -> bool {
    let (nx, ny) = (c.x.len(), c.y.len());
    let key = |i: u32| if i >= 1 && i as usize <= nx + ny { if i as usize <= nx { c.x[i as usize - 1] } else { c.y[i as usize - 1 - nx] } } else { i64::MIN };
    if r.g != [true; 3] || r.o.len() != nx || r.o2.len() != ny { return true }
    let h = c.pol == "h";
    let still = perm(&r.o, 0, nx) && r.o.windows(2).all(|w| w[0] < w[1]) && perm(&r.o2, nx, nx + ny) && r.o2.windows(2).all(|w| w[0] < w[1]);
    let op = &c.al[..];
    if op.starts_with("merge") {
        let mut both = r.o.clone();
        both.extend(&r.o2);
        if !perm(&both, 0, nx + ny) { return true }
        if !h { return false }
        let le = c.n[0];
        if le > nx || le > ny { return r.s != "err" || !still }
        return r.s != "ok" || !perm(&r.o2, nx, nx + ny) || r.o.windows(2).any(|w| (key(w[0]), w[0]) >= (key(w[1]), w[1]))
    }
    if op.starts_with("bs") || op.starts_with("lb") {
        if !still || r.cnt > r.lg + 3 { return true }
        let (lo, hi, t) = (c.n[0], c.n[1], c.n[2] as i64);
        if c.pol == "p" { return r.s != "panic" && r.cnt >= c.k }
        if r.r.len() != 1 { return true }
        let p = r.r[0] as usize;
        if p < lo || p > hi || (r.s == "found" && p >= hi) { return true }
        if !h { return !matches!(&r.s[..], "ok" | "found" | "absent") }
        let below = lo + c.x[lo..hi].iter().filter(|v| **v < t).count();
        return match &r.s[..] { "found" => c.x[p] != t, "absent" => c.x[lo..hi].contains(&t) || p != below, "ok" => p != below, _ => true }
    }
    if op.starts_with("zip") {
        let k = (c.n[1] - c.n[0]).min(c.n[3] - c.n[2]);
        let pan = c.pol == "p" && c.k <= k;
        let k = if pan { c.k - 1 } else { k };
        if r.s != if pan { "panic" } else { "ok" } { return true }
        if !pan && (r.q.len() != 2 * k || (0..k).any(|j| r.q[2 * j] as usize != c.n[0] + j + 1 || r.q[2 * j + 1] as usize != nx + c.n[2] + j + 1)) { return true }
        let chain = |lo: usize, first: usize, n: usize| (0..n).map(|j| if j == lo && k > 0 { 60001 } else if j > lo && j < lo + k { (first + j) as u32 } else { (first + j + 1) as u32 }).collect::<Vec<u32>>();
        let over = |lo: usize, first: usize, n: usize, lo2: usize, first2: usize| (0..n).map(|j| if j >= lo && j < lo + k { (first2 + lo2 + j - lo + 1) as u32 } else { (first + j + 1) as u32 }).collect::<Vec<u32>>();
        let o = match op { "zip_mr" => chain(c.n[0], 0, nx), "zip_mm" => over(c.n[0], 0, nx, c.n[2], nx), _ => (1..=nx as u32).collect() };
        let o2 = match op { "zip_rm" => chain(c.n[2], nx, ny), "zip_mm" => over(c.n[2], nx, ny, c.n[0], 0), _ => (nx as u32 + 1..=(nx + ny) as u32).collect() };
        return r.o != o || r.o2 != o2
    }
    if op.starts_with("copy") {
        let k = nx.min(ny) as u32;
        return r.s != "ok" || r.o2.iter().zip(0u32..).any(|(v, j)| *v != if j < k { j + 1 } else { nx as u32 + j + 1 }) || r.o.iter().zip(1u32..).any(|(a, b)| *a != b)
    }
    if op.starts_with("dot") {
        let d: i64 = c.x.iter().zip(&c.y).map(|(a, b)| a * b).sum();
        return r.s != "ok" || r.r != [(d + (1 << 29)) as u64]
    }
    // sorts and the heap
    if !perm(&r.o, 0, nx) || !perm(&r.o2, nx, nx + ny) { return true }
    if !h { return false }
    if op == "is2" && nx != ny { return r.s != "panic" || !still }
    if r.s != "ok" { return true }
    match op {
        "heapify" => (1..nx).any(|j| key(r.o[(j + 1) / 2 - 1]) > key(r.o[j])),
        "is2" => r.o.windows(2).any(|w| (key(w[0]), w[0]) >= (key(w[1]), w[1])) || r.o.iter().zip(&r.o2).any(|(a, b)| *b as usize != nx + *a as usize),
        "is_idx" | "is_rng" | "is_pidx" | "is_rust" => r.o.windows(2).any(|w| (key(w[0]), w[0]) >= (key(w[1]), w[1])),
        _ => r.o.windows(2).any(|w| key(w[0]) > key(w[1])),
    }
}

/// (calls made, calls that looked wrong)
pub fn run(out: &mut Out, seed: u64, secs: u64, count: usize, ops: &[&str], pols: &str, sample: usize) -> (usize, usize) {
    let mut g = Rng::new(seed);
    let start = std::time::Instant::now();
    let (mut made, mut odd) = (0, 0);
    while made < count && odd < 20 && (made % 64 != 0 || start.elapsed().as_secs() < secs) {
        let op = ops[g.below(ops.len())];
        let elem = ["k24", "k24", "k24", "p8", "p8", "p8", "p5", "p5", "k24", "p8", "p5", "k1056"][g.below(12)];
        let c = make(&mut g, op, pols.as_bytes(), elem);
        if let Some(r) = call(out, &c) {
            let s = strange(&c, &r);
            if s || made % sample == 0 { out.line(&r.line()) }
            odd += s as usize;
        }
        made += 1;
    }
    (made, odd)
}
