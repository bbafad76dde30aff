//! Drives the crate's algorithms: one event per call, judged by AlgoTrace.tla.
//! Comparisons go through a policy: honest, panicking at the k-th, or lying.
use crate::elem::{LIVE, NID};
use crate::out::*;
use indexing::algorithms::*;
use indexing::scope;
#[cfg(feature = "ptr")]
use indexing::pointer::*;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Copy, PartialEq)]
pub enum Pol { Honest, Panic(usize), Adv(u64), Always(Ordering) }
/// `below`: elements 1..below are the slices', 60000 and 60001 the harness' own; anything else must not turn up
struct Ask { pol: Pol, count: usize, budget: usize, below: u32, zero: bool, strange: bool }
thread_local! { static ASK: RefCell<Ask> = RefCell::new(Ask { pol: Pol::Honest, count: 0, budget: 0, below: 0, zero: false, strange: false }); }

fn mix(a: u64, b: u64) -> u64 { let mut x = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03); x ^= x >> 29; x = x.wrapping_mul(0xBF58476D1CE4E5B9); x ^ (x >> 32) }
/// One user comparison.
fn ask(ka: i64, ia: u32, kb: i64, ib: u32) -> Ordering {
    let (p, honest) = ASK.with(|q| {
        let mut q = q.borrow_mut();
        q.count += 1;
        for i in [ia, ib] {
            if !(i >= 1 && i < q.below || i == 60000 || i == 60001 || q.zero && i == 0) { q.strange = true }
        }
        let honest = ka.cmp(&kb);
        if q.count > q.budget { return (true, honest) }
        match q.pol {
            Pol::Honest => (false, honest),
            Pol::Panic(k) => (q.count == k, honest),
            Pol::Adv(s) => (false, match mix(s, q.count as u64) % (if s % 2 == 0 { 3 } else { 5 }) { 0 => Ordering::Less, 1 => Ordering::Equal, _ => Ordering::Greater }),
            Pol::Always(o) => (false, o),
        }
    });
    if p { panic!("comparison") }
    honest
}
fn start(pol: Pol, budget: usize, below: u32, zero: bool) {
    ASK.with(|q| *q.borrow_mut() = Ask { pol, count: 0, budget, below, zero, strange: false })
}

pub trait AE: Sized {
    const NAME: &'static str;
    fn mk(key: i64, id: u32) -> Self;
    fn key(&self) -> i64;
    fn id(&self) -> u32;
}
macro_rules! ordered { ($t:ty) => {
    impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { ask(self.key(), self.id(), o.key(), o.id()) == Ordering::Equal } }
    impl Eq for $t {}
    impl Ord for $t { fn cmp(&self, o: &Self) -> Ordering { ask(self.key(), self.id(), o.key(), o.id()) } }
    impl PartialOrd for $t {
        fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(ask(self.key(), self.id(), o.key(), o.id())) }
        fn lt(&self, o: &Self) -> bool { ask(self.key(), self.id(), o.key(), o.id()) == Ordering::Less }
        fn le(&self, o: &Self) -> bool { ask(self.key(), self.id(), o.key(), o.id()) != Ordering::Greater }
        fn gt(&self, o: &Self) -> bool { ask(self.key(), self.id(), o.key(), o.id()) == Ordering::Greater }
        fn ge(&self, o: &Self) -> bool { ask(self.key(), self.id(), o.key(), o.id()) != Ordering::Less }
    }
} }
/// 24 bytes with a counted destructor
pub struct K { a: u64, b: u64, key: i64 }
impl AE for K {
    const NAME: &'static str = "k24";
    fn mk(key: i64, id: u32) -> Self { LIVE[id as usize].fetch_add(1, Relaxed); K { a: id as u64, b: !(id as u64), key } }
    fn key(&self) -> i64 { self.key }
    fn id(&self) -> u32 { if self.a == !self.b && (self.a as usize) < NID { self.a as u32 } else { 999_999_999 } }
}
impl Drop for K { fn drop(&mut self) { let i = self.id() as usize; if i < NID { LIVE[i].fetch_sub(1, Relaxed); } } }
ordered!(K);
/// plain 8 bytes
#[derive(Clone, Copy)]
pub struct P8 { key: i32, id: u32 }
impl AE for P8 {
    const NAME: &'static str = "p8";
    fn mk(key: i64, id: u32) -> Self { P8 { key: key as i32, id } }
    fn key(&self) -> i64 { self.key as i64 }
    fn id(&self) -> u32 { self.id }
}
ordered!(P8);
/// 1056 bytes, aligned to 32, with a counted destructor
#[repr(align(32))]
pub struct K1056 { a: u64, _pad: [u64; 127], key: i64, b: u64 }
impl AE for K1056 {
    const NAME: &'static str = "k1056";
    fn mk(key: i64, id: u32) -> Self { LIVE[id as usize].fetch_add(1, Relaxed); K1056 { a: id as u64, _pad: [id as u64 + 5; 127], key, b: !(id as u64) } }
    fn key(&self) -> i64 { self.key }
    fn id(&self) -> u32 { if self.a == !self.b && (self.a as usize) < NID && self._pad.iter().step_by(9).all(|&p| p == self.a + 5) { self.a as u32 } else { 999_999_999 } }
}
impl Drop for K1056 { fn drop(&mut self) { let i = self.id() as usize; if i < NID { LIVE[i].fetch_sub(1, Relaxed); } } }
ordered!(K1056);
/// five bytes, no alignment
#[derive(Clone, Copy)]
pub struct P5([u8; 5]);
impl AE for P5 {
    const NAME: &'static str = "p5";
    fn mk(key: i64, id: u32) -> Self {
        let k = ((key.max(-8_000_000).min(8_000_000) + (1 << 23)) as u32).to_le_bytes();
        let i = id.to_le_bytes();
        P5([k[0], k[1], k[2], i[0], i[1]])
    }
    fn key(&self) -> i64 { u32::from_le_bytes([self.0[0], self.0[1], self.0[2], 0]) as i64 - (1 << 23) }
    fn id(&self) -> u32 { u16::from_le_bytes([self.0[3], self.0[4]]) as u32 }
}
ordered!(P5);
pub struct Z0;
impl AE for Z0 {
    const NAME: &'static str = "zst";
    fn mk(_: i64, _: u32) -> Self { Z0 }
    fn key(&self) -> i64 { 0 }
    fn id(&self) -> u32 { 0 }
}
ordered!(Z0);

#[derive(Clone, Debug)]
pub struct Acall { pub al: String, pub pol: String, pub k: usize, pub x: Vec<i64>, pub y: Vec<i64>, pub n: Vec<usize>, pub elem: String }
pub fn parse(l: &str) -> Acall {
    let f: Vec<&str> = l.split(';').collect();
    let g = |k: usize| f.get(k).cloned().unwrap_or("");
    let ns = |t: &str| t.split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<i64>().unwrap()).collect::<Vec<_>>();
    Acall { al: g(0).into(), pol: g(1).into(), k: g(2).parse().unwrap_or(0), x: ns(g(3)), y: ns(g(4)), n: ns(g(5)).iter().map(|&x| x as usize).collect(), elem: g(6).into() }
}
fn policy(c: &Acall) -> Pol {
    match &c.pol[..] {
        "p" => Pol::Panic(c.k), "a" => Pol::Adv(c.k as u64),
        "L" => Pol::Always(Ordering::Less), "E" => Pol::Always(Ordering::Equal), "G" => Pol::Always(Ordering::Greater),
        _ => Pol::Honest,
    }
}

const G: usize = 3;
struct Buf<T> { all: Vec<T>, ids: Vec<u32> }
impl<T: AE> Buf<T> {
    fn new(keys: &[i64], next: &mut u32, guard: &mut u32) -> Self {
        let mut all = vec![];
        for j in 0..keys.len() + 2 * G {
            if j < G || j >= keys.len() + G { all.push(T::mk(if j < G { i32::MIN as i64 } else { i32::MAX as i64 }, *guard)); *guard += 1; }
            else { all.push(T::mk(keys[j - G], *next)); *next += 1; }
        }
        let ids = all.iter().map(|e| e.id()).collect();
        Buf { all, ids }
    }
    fn s(&self) -> &[T] { &self.all[G..self.all.len() - G] }
    fn m(&mut self) -> &mut [T] { let n = self.all.len(); &mut self.all[G..n - G] }
    fn out(&self) -> Vec<u32> { self.s().iter().map(|e| e.id()).collect() }
    fn guards(&self) -> bool { let n = self.all.len(); n == self.ids.len() && (0..n).filter(|&j| j < G || j >= n - G).all(|j| self.all[j].id() == self.ids[j]) }
}

#[derive(Default)]
struct R { s: String, r: Vec<u64>, q: Vec<u32> }
fn rs(s: &str) -> R { R { s: s.into(), ..R::default() } }
fn find(r: Result<usize, usize>) -> R { match r { Ok(p) => R { s: "found".into(), r: vec![sat(p)], q: vec![] }, Err(p) => R { s: "absent".into(), r: vec![sat(p)], q: vec![] } } }
fn num(r: usize) -> R { R { s: "ok".into(), r: vec![sat(r)], q: vec![] } }

#[cfg(feature = "ptr")]
fn sub<'id, A, T>(c: &indexing::Container<'id, A>, lo: usize, hi: usize) -> PRange<'id, T, indexing::Unknown>
    where A: indexing::container_traits::Contiguous<Item = T>
{
    use indexing::proof::Provable;
    let full = c.pointer_range();
    let all: Vec<_> = full.into_iter().collect();
    let at = |k: usize| if k < all.len() { all[k].no_proof() } else { full.past_the_end() };
    if lo < hi { return c.nonempty_range(at(lo), at(hi)).expect("range").no_proof() }
    // an empty range at lo: what is left of the range up to lo after iterating it
    let mut it = c.pointer_range_of(..at(lo)).into_iter();
    while let Some(_) = it.next() {}
    it.into_range()
}

fn go<T: AE + Ord>(c: &Acall, x: &mut Buf<T>, y: &mut Buf<T>, elt: &T) -> Option<R> {
    let lt = |a: &T, b: &T| a < b;
    let tgt = (elt.key(), elt.id());
    let by = |e: &T| ask(e.key(), e.id(), tgt.0, tgt.1);
    let below = |e: &T| by(e) == Ordering::Less;
    let _ = &below;
    Some(match &c.al[..] {
        "qs_range" => { quicksort_range(x.m()); rs("ok") }
        #[cfg(feature = "ptr")] "qs_prange" => { quicksort_prange(x.m()); rs("ok") }
        "qs_bounds" => { quicksort_bounds(x.m()); rs("ok") }
        "is_idx" => { insertion_sort_indexes(x.m(), lt); rs("ok") }
        "is2" => { insertion_sort2_indexes(x.m(), y.m(), lt); rs("ok") }
        "is_rng" => { insertion_sort_ranges(x.m(), lt); rs("ok") }
        #[cfg(feature = "ptr")] "is_plower" => { insertion_sort_prange_lower(x.m(), lt); rs("ok") }
        #[cfg(feature = "ptr")] "is_pidx" => { insertion_sort_pointerindex(x.m(), lt); rs("ok") }
        "is_rust" => { insertion_sort_rust(x.m(), lt); rs("ok") }
        "merge_idx" => match merge_internal_indices(x.m(), c.n[0], y.m()) { Ok(()) => rs("ok"), Err(_) => rs("err") },
        "merge_rng" => match merge_internal_ranges(x.m(), c.n[0], y.m()) { Ok(()) => rs("ok"), Err(_) => rs("err") },
        "heapify" => { heapify(x.m()); rs("ok") }
        "bs" => find(binary_search(x.s(), elt)),
        "bs_by" => find(binary_search_by(x.s(), by)),
        #[cfg(feature = "ptr")] "bs_prange" => find(binary_search_by_prange(x.s(), by)),
        #[cfg(feature = "ptr")] "bs_pslice" => find(binary_search_by_pslice(x.s(), by)),
        #[cfg(feature = "ptr")] "bs_prange_" => scope(x.s(), |v| { let r = sub(&v, c.n[0], c.n[1]);
            find(binary_search_by_prange_(r, &v, by).map(|p| v.distance_to(p)).map_err(|p| v.distance_to(p))) }),
        #[cfg(feature = "ptr")] "bs_pslice_" => scope(x.s(), |v| { let r = PSlice::from(sub(&v, c.n[0], c.n[1]));
            find(binary_search_by_pslice_(r, &v, by).map(|p| v.distance_to(p)).map_err(|p| v.distance_to(p))) }),
        "lb" => num(lower_bound(x.s(), elt)),
        "lb_raw" => num(lower_bound_raw_ptr(x.s(), elt)),
        #[cfg(feature = "ptr")] "lb_prange" => num(lower_bound_prange(x.s(), elt)),
        #[cfg(feature = "ptr")] "lb_pslice" => num(lower_bound_pslice(x.s(), below)),
        #[cfg(feature = "ptr")] "lb_prange_" => scope(x.s(), |v| { let r = sub(&v, c.n[0], c.n[1]); num(v.distance_to(lower_bound_prange_(r, &v, below))) }),
        #[cfg(feature = "ptr")] "lb_pslice_" => scope(x.s(), |v| { let r = PSlice::from(sub(&v, c.n[0], c.n[1])); num(v.distance_to(lower_bound_pslice_(r, &v, below))) }),
        #[cfg(feature = "ptr")] "zip_rr" | "zip_rm" | "zip_mr" | "zip_mm" => {
            let mut q = vec![];
            {
                let q = &mut q;
                let n = &c.n;
                macro_rules! ends { ($r:ident, $c1:expr, $s:ident, $c2:expr, $f:expr) => { match n[4] {
                    0 => zip($r, $c1, $s, $c2, $f), 1 => zip(PSlice::from($r), $c1, $s, $c2, $f),
                    2 => zip($r, $c1, PSlice::from($s), $c2, $f), _ => zip(PSlice::from($r), $c1, PSlice::from($s), $c2, $f) } } }
                // every call of the closure counts as a comparison (it may be told to panic)
                macro_rules! note { ($a:expr, $b:expr) => {{ q.push($a.id()); q.push($b.id()); ask(0, $a.id(), 0, $b.id()); }} }
                let (xs, ys) = (x.m(), y.m());
                match &c.al[..] {
                    "zip_rr" => scope(&*xs, |v| scope(&*ys, |u| { let r = sub(&v, n[0], n[1]); let s = sub(&u, n[2], n[3]);
                        ends!(r, &v, s, &u, |a: &T, b: &T| note!(a, b)) })),
                    "zip_rm" => scope(&*xs, |v| scope(ys, |mut u| { let r = sub(&v, n[0], n[1]); let s = sub(&u, n[2], n[3]);
                        let mut carry: Option<T> = None;
                        ends!(r, &v, s, &mut u, |a: &T, b: &mut T| { note!(a, b); if let Some(z) = carry.as_mut() { std::mem::swap(z, b) } else { carry = Some(std::mem::replace(b, T::mk(0, 60001))) } }) })),
                    "zip_mr" => scope(xs, |mut v| scope(&*ys, |u| { let r = sub(&v, n[0], n[1]); let s = sub(&u, n[2], n[3]);
                        let mut carry: Option<T> = None;
                        ends!(r, &mut v, s, &u, |a: &mut T, b: &T| { note!(a, b); if let Some(z) = carry.as_mut() { std::mem::swap(z, a) } else { carry = Some(std::mem::replace(a, T::mk(0, 60001))) } }) })),
                    _ => scope(xs, |mut v| scope(ys, |mut u| { let r = sub(&v, n[0], n[1]); let s = sub(&u, n[2], n[3]);
                        ends!(r, &mut v, s, &mut u, |a: &mut T, b: &mut T| { note!(a, b); std::mem::swap(a, b) }) })),
                }
            }
            R { s: "ok".into(), r: vec![], q }
        }
        _ => return None,
    })
}
fn copies(c: &Acall, x: &mut Buf<P8>, y: &mut Buf<P8>) -> Option<R> {
    Some(match &c.al[..] {
        "copy" => { let a: Vec<P8> = x.s().to_vec(); copy(&a, y.m()); rs("ok") }
        #[cfg(feature = "ptr")] "copy_prange" => { copy_prange(x.s(), y.m()); rs("ok") }
        #[cfg(feature = "ptr")] "dot" | "dot_prange" => {
            let a: Vec<i32> = c.x.iter().map(|&v| v as i32).collect();
            let b: Vec<i32> = c.y.iter().map(|&v| v as i32).collect();
            let r = if c.al == "dot" { zip_dot_i32(&a, &b) } else { zip_dot_i32_prange(&a, &b) };
            // sums are kept small and logged with an offset, so that the event has natural numbers only
            R { s: "ok".into(), r: vec![(r as i64 + (1 << 29)) as u64], q: vec![] }
        }
        _ => return None,
    })
}

fn log2(n: usize) -> usize { let mut k = 0; while (1usize << k) < n + 1 { k += 1 } k }

/// A finished call.
pub struct Rec { head: String, pub s: String, pub o: Vec<u32>, pub o2: Vec<u32>, pub r: Vec<u64>, pub q: Vec<u32>, pub cnt: usize, pub lg: usize, pub g: [bool; 3] }
impl Rec {
    pub fn line(&self) -> String {
        format!("{},\"s\":\"{}\",\"o\":{},\"o2\":{},\"r\":{},\"q\":{},\"c\":{},\"lg\":{},\"g\":[{},{},{}]}}", self.head, self.s, jids(&self.o), jids(&self.o2),
            jints(self.r.iter().cloned()), jids(&self.q), sat(self.cnt), self.lg, self.g[0], self.g[1], self.g[2])
    }
}

fn one<T: AE + Ord>(out: &mut Out, c: &Acall, f: fn(&Acall, &mut Buf<T>, &mut Buf<T>, &T) -> Option<R>) -> Option<Rec> {
    let (mut id, mut gid) = (1, 40000);
    let used = |id: u32, gid: u32| (0..(id as usize).min(NID)).chain(40000..gid as usize).chain(60000..60002);
    for i in used(c.x.len() as u32 + c.y.len() as u32 + 1, 40020) { LIVE[i].store(0, Relaxed) }
    let mut x: Buf<T> = Buf::new(&c.x, &mut id, &mut gid);
    let mut y: Buf<T> = Buf::new(&c.y, &mut id, &mut gid);
    let elt = T::mk(c.n.get(2).map_or(0, |&v| v as i64), 60000);
    let nx = c.x.len().max(4);
    let head = format!("{{\"op\":\"{}\",\"pol\":\"{}\",\"k\":{},\"t\":\"{}\",\"x\":{},\"y\":{},\"n\":{}", c.al, c.pol, c.k, T::NAME,
        jsigned(&c.x), jsigned(&c.y), jints(c.n.iter().map(|&v| sat(v))));
    out.mark(&head);
    start(policy(c), match policy(c) { Pol::Honest | Pol::Panic(_) => 40 * nx * nx, _ => (20 * nx * (log2(nx) + 2)).min(60_000) }, id, T::NAME == "zst");
    let r = catch_unwind(AssertUnwindSafe(|| f(c, &mut x, &mut y, &elt)));
    let (cnt, strange) = ASK.with(|q| { let q = q.borrow(); (q.count, q.strange) });
    start(Pol::Honest, usize::MAX, u32::MAX, true);
    let over = cnt > match policy(c) { Pol::Honest | Pol::Panic(_) => 40 * nx * nx, _ => (20 * nx * (log2(nx) + 2)).min(60_000) };
    let r = match r { Ok(None) => return None, Ok(Some(r)) => r, Err(_) => rs(if over { "budget" } else { "panic" }) };
    let (o, o2) = (x.out(), y.out());
    let guards = x.guards() && y.guards();
    // only elements of the slices (and the target) may ever be handed to user code
    let inside = !strange;
    drop(x); drop(y); drop(elt);
    let live = used(id, gid).all(|i| LIVE[i].load(Relaxed) == 0);
    Some(Rec { head, s: r.s, o, o2, r: r.r, q: r.q, cnt, lg: log2(c.x.len()), g: [live, guards, inside] })
}
fn jsigned(v: &[i64]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }

pub fn run(out: &mut Out, c: &Acall) -> bool {
    match call(out, c) { Some(r) => { out.line(&r.line()); true } None => false }
}
pub fn call(out: &mut Out, c: &Acall) -> Option<Rec> {
    match &c.al[..] {
        "copy" | "copy_prange" | "dot" | "dot_prange" => one::<P8>(out, c, |c, x, y, _| copies(c, x, y)),
        _ => match &c.elem[..] {
            "p8" => one::<P8>(out, c, go),
            "k1056" => one::<K1056>(out, c, go),
            "p5" => one::<P5>(out, c, go),
            "zst" => one::<Z0>(out, c, go),
            _ => one::<K>(out, c, go),
        },
    }
}
