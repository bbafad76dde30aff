//! Sessions: one scope, several handles (the container, clones, twins), a pool
//! of issued positions, and a stream of calls that comes either from a script
//! (generated by TLC from the specification) or from a seeded random source.
use crate::elem::*;
use crate::handle::*;
use crate::out::*;
use crate::part::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;

pub type PKey = (u8, usize, usize, bool);
#[derive(Clone, Debug, Default)]
pub struct Cmd { pub op: String, pub c: usize, pub a: Vec<PKey>, pub n: Vec<usize>, pub m: Vec<bool> }

/// Argument signature of each operation:
/// i/I index (any/dereferenceable), r/R range (any/nonempty), q/Q p/P s/S the
/// pointer versions, n absolute number, o offset, d divisor, m answers,
/// k call number of a panic (optional), e new element.
pub const SIGS: &[(&str, &str)] = &[
    ("i_integer", "i"), ("i_after", "I"), ("i_no_proof", "i"), ("i_copy", "i"), ("cmp_i", "ii"), ("ord_i", "ii"),
    ("r_len", "r"), ("r_is_empty", "r"), ("r_start", "r"), ("r_end", "r"), ("r_as_range", "r"), ("r_copy", "r"),
    ("nonempty", "r"), ("into_checked", "r"), ("split_in_half", "r"), ("r_split_at", "ro"), ("contains", "rn"),
    ("subdivide", "rd"), ("join", "rr"), ("join_cover", "rr"), ("join_cover_both", "rr"), ("frontiers", "r"),
    ("r_forward_by", "rIo"), ("r_forward_range_by", "rro"), ("r_no_proof", "r"), ("first", "r"), ("upper_middle", "r"),
    ("past_the_end", "r"), ("lower_middle", "R"), ("last", "R"), ("tail", "R"), ("init", "R"), ("advance_", "R"),
    ("advance", "R"), ("advance_by", "Ro"), ("advance_back", "R"), ("iter", "rm"), ("iter_all", "r"), ("iter_x", "rx"), ("w_iter", "rx"), ("subdivide_x", "rdj"), ("cmp_r", "rr"), ("ord_r", "rr"),
    ("len", ""), ("range", ""), ("empty_range", ""), ("vet", "n"), ("vet_range", "nn"), ("c_split_at", "i"), ("c_split_after", "I"),
    ("c_split_around", "r"), ("before", "i"), ("after", "I"), ("range_of_from", "i"), ("range_of_to", "i"), ("range_of_full", ""),
    ("forward", "I"), ("forward_by", "Io"), ("backward", "I"), ("forward_range_by", "ro"),
    ("scan_from", "Imk"), ("scan_from_rev", "Imk"), ("scan_range", "rmk"),
    ("get", "I"), ("get_r", "r"), ("get_from", "i"), ("get_to", "i"), ("get_full", ""),
    ("set", "Ie"), ("mut_r", "r"), ("mut_from", "i"), ("mut_to", "i"), ("mut_full", ""), ("swap", "II"),
    ("rotate1_up", "r"), ("rotate1_down", "r"), ("index_twice", "rr"), ("zip_mut_raw", "rrk"),
    ("push", "e"), ("insert", "ie"),
    ("pointer_range", ""), ("pointer_slice", ""), ("pr_of_from", "q"), ("pr_of_to", "q"), ("pr_of_full", ""),
    ("nonempty_range", "qq"), ("distance_to", "q"), ("scan_tail", "Qmk"), ("scan_pr", "pmk"), ("scan_pr_rev", "pmk"),
    ("split_at_pointer", "q"), ("get_q", "Q"), ("get_p", "p"), ("get_qfrom", "q"), ("get_qto", "q"),
    ("q_after", "Q"), ("q_no_proof", "q"), ("q_ptr", "q"), ("q_eq", "qq"),
    ("p_len", "p"), ("p_is_empty", "p"), ("p_nonempty", "p"), ("p_split_in_half", "p"), ("p_first", "p"), ("p_upper_middle", "p"),
    ("p_past_the_end", "p"), ("p_no_proof", "p"), ("p_to_slice", "p"), ("p_trait", "p"), ("p_eq", "pp"), ("p_iter", "pm"), ("p_iter_all", "p"), ("p_iter_x", "px"),
    ("p_last", "P"), ("p_tail", "P"), ("p_init", "P"), ("p_advance", "P"), ("p_advance_back", "P"),
    ("s_len", "s"), ("s_is_empty", "s"), ("s_nonempty", "s"), ("s_split_in_half", "s"), ("s_first", "s"), ("s_upper_middle", "s"),
    ("s_past_the_end", "s"), ("s_no_proof", "s"), ("s_to_range", "s"), ("s_trait", "s"), ("s_eq", "ss"),
    ("s_last", "S"), ("s_tail", "S"), ("s_init", "S"), ("s_advance", "S"), ("s_advance_back", "S"),
    ("mut_p", "p"), ("mut_qfrom", "q"), ("mut_qto", "q"), ("rotate1_prange", "P"), ("swap_ptr", "QQ"), ("split_container", "q"),
    ("dup", ""), ("twin", "t"), ("only", ""),
];
pub fn sig(op: &str) -> &'static str { SIGS.iter().find(|x| x.0 == op).map_or("", |x| x.1) }

pub fn is_ptr_op(op: &str) -> bool {
    sig(op).bytes().any(|c| matches!(c, b'q' | b'Q' | b'p' | b'P' | b's' | b'S')) || matches!(op, "pointer_range" | "pointer_slice" | "pr_of_full")
}

/// Concrete values behind a number the specification calls huge.
pub const HUGE: [usize; 8] = [usize::MAX, isize::MAX as usize, 1 << 32, (1 << 32) + 1, usize::MAX - 1, (isize::MAX as usize) + 1, (1 << 63) + 2, 1 << 31];

pub struct RandCfg<'x> { pub rng: Rng, pub ops: &'x [(String, usize)], pub steps: usize }
pub enum Src<'x> { Script { cmds: &'x [Cmd], at: usize, huge: usize }, Rand(RandCfg<'x>) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Sh, Mu, RR, MM, Vec, RVec, MVec, MMVec }
pub const KINDS: &[(&str, Kind)] = &[("sh", Kind::Sh), ("mu", Kind::Mu), ("rr", Kind::RR), ("mm", Kind::MM),
    ("vec", Kind::Vec), ("rvec", Kind::RVec), ("mvec", Kind::MVec), ("mmvec", Kind::MMVec)];
impl Kind {
    pub fn exclusive(self) -> bool { !matches!(self, Kind::Sh | Kind::RR | Kind::RVec) }
    pub fn fixed(self) -> bool { matches!(self, Kind::Sh | Kind::Mu | Kind::RR | Kind::MM) }
    pub fn growable(self) -> bool { matches!(self, Kind::Vec | Kind::MVec | Kind::MMVec) }
}

pub struct Ids { pub next: u32 }
impl Ids {
    pub fn mk<E: Elem>(&mut self) -> E { let e = E::mk(self.next); self.next += 1; e }
    pub fn left<E: Elem>(&self) -> usize { E::MAX.saturating_sub(self.next as usize) }
}

const G: usize = 3;
/// Storage between guard elements.
pub struct Back<E> { all: Vec<E>, ids: Vec<u32> }
impl<E: Elem> Back<E> {
    pub fn new(len: usize, ids: &mut Ids) -> Self {
        let all: Vec<E> = (0..len + 2 * G).map(|_| ids.mk()).collect();
        let ids = all.iter().map(|e| e.id()).collect();
        Back { all, ids }
    }
    pub fn data(&self) -> &[E] { &self.all[G..self.all.len() - G] }
    pub fn data_mut(&mut self) -> &mut [E] { let n = self.all.len(); &mut self.all[G..n - G] }
    pub fn guards_ok(&self) -> bool {
        let n = self.all.len();
        n == self.ids.len() && (0..n).filter(|&i| i < G || i >= n - G).all(|i| self.all[i].id() == self.ids[i])
    }
    pub fn ids(&self) -> Vec<u32> { self.data().iter().map(|e| e.id()).collect() }
}

pub struct Sess<'x> {
    pub out: &'x mut Out,
    pub src: Src<'x>,
    pub ids: Ids,
    /// contents of the stores as last seen
    pub cur: Vec<Vec<u32>>,
    /// length of the first storage (wide logs)
    pub count: usize,
    pub skipped: u64,
    pub ran: u64,
    pub kind: Kind,
    /// twin storages: (length, exclusive)
    pub twins: Vec<(usize, bool)>,
}

fn lens(a: usize, b: usize) -> String { if wide() { format!(",\"L\":{},\"L2\":{}", jnum(a as u64), jnum(b as u64)) } else { String::new() } }
fn jbs(cur: &[Vec<u32>]) -> String {
    let mut s = String::from("[");
    for (k, v) in cur.iter().enumerate() { if k > 0 { s.push(','); } s.push_str(&jids(v)); }
    s.push(']');
    s
}

struct Slot<'id, 'a, E> { h: BoxH<'id, 'a, E>, store: usize }

impl<'x> Sess<'x> {
    fn plain(&mut self, op: &str, c: usize, n: &[usize], m: &[bool], s: &str, i: &[u64], b: &[bool], bs: &str) {
        let l = format!("{{\"op\":\"{}\",\"a\":[],\"n\":{},\"m\":{},\"e\":[],\"c\":{},\"s\":\"{}\",\"p\":[],\"i\":{},\"l\":[],\"b\":{},\"bs\":{}{}}}",
            op, jints(n.iter().map(|&x| sat(x))), jbools(m), c + 1, s, jints(i.iter().cloned()), jbools(b), bs, lens(self.count, self.count));
        self.out.line(&l);
    }

    pub fn body<'id, 'a, E: Elem>(&mut self, h: BoxH<'id, 'a, E>, twins: Vec<Buf<'a, E>>) -> Vec<Vec<u32>> {
        let mut twins = twins.into_iter();
        let mut tw_at = 0;
        let mut hs: Vec<Slot<'id, 'a, E>> = vec![Slot { h, store: 0 }];
        let mut pool: Vec<P<'id, E>> = vec![];
        let mut huge = 0usize;
        let mut step = 0;
        loop {
            step += 1;
            let base = hs[0].h.base();
            let len0 = if wide() { hs[0].h.count() } else { self.cur[0].len() };
            self.count = len0;
            // the next call
            let (cmd, args) = match &mut self.src {
                Src::Script { cmds, at, huge: hm } => {
                    if *at >= cmds.len() { break }
                    let mut cmd = cmds[*at].clone();
                    *at += 1;
                    for x in cmd.n.iter_mut() { if *x >= CAP { *x = HUGE[(*hm + huge) % HUGE.len()]; huge += 1; } }
                    (cmd, None)
                }
                Src::Rand(r) => {
                    if step > r.steps { break }
                    let ncmp = hs.len();
                    let mut got = None;
                    for _ in 0..30 {
                        got = random(r, &pool, base, len0, ncmp);
                        // pointers to zero sized elements are a recorded finding with a probe of its own
                        if let Some((c, _)) = &got { if base.esz == 0 && is_ptr_op(&c.op) { got = None; } }
                        if got.is_some() { break }
                    }
                    match got { Some((c, a)) => (c, Some(a)), None => { self.skipped += 1; continue } }
                }
            };
            let c = cmd.c.min(hs.len() - 1);
            let ev = |x: &[bool]| x.to_vec();
            let _ = ev;
            match &cmd.op[..] {
                "dup" => {
                    self.out.mark("dup");
                    match catch_unwind(AssertUnwindSafe(|| hs[c].h.dup())) {
                        Ok(Some(h)) => { let store = hs[c].store; hs.push(Slot { h, store }); let k = hs.len() as u64;
                            self.plain("dup", c, &[], &[], "ok", &[k], &[], "[]") }
                        Ok(None) => { self.skipped += 1; }
                        Err(_) => self.plain("dup", c, &[], &[], "panic", &[], &[], "[]"),
                    }
                    continue;
                }
                "only" => {
                    self.out.mark("only");
                    let store = hs[c].store;
                    let old = std::mem::replace(&mut hs[c], Slot { h: BoxH::Dead(std::marker::PhantomData), store });
                    match catch_unwind(AssertUnwindSafe(|| old.h.only())) {
                        Ok(h) => { hs[c] = Slot { h, store }; self.plain("only", c, &[], &[], "ok", &[], &[], "[]") }
                        Err(_) => { self.plain("only", c, &[], &[], "panic", &[], &[], "[]"); break }
                    }
                    if self.kind.growable() { pool.retain(|p| matches!(p.kind(), b'I' | b'R')); }
                    continue;
                }
                "twin" => {
                    let buf = match twins.next() { Some(b) => b, None => { self.skipped += 1; continue } };
                    let (n, excl) = self.twins[tw_at];
                    tw_at += 1;
                    let ids: Vec<u32> = if wide() { vec![] } else if org() > 0 { vec![0; n] } else { match &buf { Buf::Sh(s) => s.iter().map(|e| e.id()).collect(), Buf::Mu(s) => s.iter().map(|e| e.id()).collect() } };
                    self.out.mark("twin");
                    match catch_unwind(AssertUnwindSafe(|| hs[c].h.twin(buf))) {
                        Ok(Some(Ok(h))) => {
                            self.cur.push(ids);
                            hs.push(Slot { h, store: self.cur.len() - 1 });
                            let (k, st) = (hs.len() as u64, self.cur.len() as u64);
                            let bs = jbs(&self.cur);
                            self.plain("twin", c, &[n], &[excl], "ok", &[k, st], &[], &bs)
                        }
                        Ok(Some(Err(()))) => self.plain("twin", c, &[n], &[excl], "err", &[], &[], "[]"),
                        Ok(None) => { self.skipped += 1; }
                        Err(_) => self.plain("twin", c, &[n], &[excl], "panic", &[], &[], "[]"),
                    }
                    continue;
                }
                _ => {}
            }
            let args = match args { Some(a) => a, None => match self.resolve(&cmd, &mut hs[0].h, &pool, base) { Some(a) => a, None => { self.skipped += 1; continue } } };
            let sg = sig(&cmd.op);
            let mut e = vec![];
            if sg.contains('e') { if self.ids.left::<E>() < 2 { self.skipped += 1; continue } e.push(self.ids.next); self.ids.next += 1; }
            let call = Call { op: &cmd.op, a: &args, n: &cmd.n, m: &cmd.m, e: &e };
            let ne: Vec<u32> = e.iter().map(|&x| E::norm(x)).collect();
            let cj = Call { op: &cmd.op, a: &args, n: &cmd.n, m: &cmd.m, e: &ne }.json(base);
            self.out.mark(&cj);
            let r = catch_unwind(AssertUnwindSafe(|| hs[c].h.exec(&call)));
            let res = match r { Ok(None) => { self.skipped += 1; continue } Ok(Some(r)) => r, Err(_) => Res::new("panic") };
            self.ran += 1;
            let base2 = hs[0].h.base();
            let mut changed = false;
            for s in &hs {
                let v = s.h.look().1;
                if v != self.cur[s.store] { self.cur[s.store] = v; changed = true; }
            }
            let bs = if changed { jbs(&self.cur) } else { "[]".to_string() };
            let n0 = if wide() { hs[0].h.count() } else { self.cur[0].len() };
            let l = format!("{{{},\"c\":{},{},\"bs\":{}{}}}", cj, c + 1, res.json(base2), bs, lens(len0, n0));
            self.out.line(&l);
            self.count = n0;
            for p in res.p.into_iter() {
                if matches!(p, P::Raw(..)) || !p.sane(base2, n0) { continue }
                if pool.len() < 160 { pool.push(p) } else {
                    let k = (self.ran as usize * 7919) % 160;
                    pool[k] = p;
                }
            }
        }
        // final contents of every store, as seen by the harness
        for s in &hs { self.cur[s.store] = s.h.look().1; }
        self.cur.clone()
    }

    /// Find the named positions among the issued ones, or ask the container for them.
    fn resolve<'id, 'a, E: Elem>(&mut self, cmd: &Cmd, h: &mut BoxH<'id, 'a, E>, pool: &[P<'id, E>], base: Base) -> Option<Vec<P<'id, E>>> {
        let mut v = vec![];
        for &k in &cmd.a {
            let same = |p: &P<'id, E>| p.kind() == k.0 && p.bounds(base) == (k.1, k.2) && p.proven() == k.3;
            if let Some(p) = pool.iter().rev().find(|p| same(p)) { v.push(*p); continue }
            self.out.mark("\"op\":\"synth\"");
            let p = catch_unwind(AssertUnwindSafe(|| synth(h, k))).ok()??;
            if !same(&p) { return None }
            v.push(p);
        }
        Some(v)
    }
}

fn one<'id, 'a, E: Elem>(h: &mut BoxH<'id, 'a, E>, op: &str, a: &[P<'id, E>], n: &[usize], at: usize) -> Option<P<'id, E>> {
    let r = h.exec(&Call { op, a, n, m: &[], e: &[] })?;
    if r.s != "ok" { return None }
    r.p.get(at).cloned()
}
/// Obtain a position through the public interface.
fn synth<'id, 'a, E: Elem>(h: &mut BoxH<'id, 'a, E>, k: PKey) -> Option<P<'id, E>> {
    let (kind, lo, hi, ne) = k;
    match kind {
        b'I' => if ne { one(h, "vet", &[], &[lo], 0) } else {
            let r = one(h, "vet_range", &[], &[0, lo], 0)?;
            one(h, "past_the_end", &[r], &[], 0)
        },
        b'R' => { let r = one(h, "vet_range", &[], &[lo, hi], 0)?; if ne { one(h, "nonempty", &[r], &[], 0) } else { Some(r) } }
        b'Q' => {
            let full = one(h, "pointer_range", &[], &[], 0)?;
            let end = full.bounds(h.base()).1;
            if lo == end { return if ne { None } else { one(h, "p_past_the_end", &[full], &[], 0) } }
            let r = h.exec(&Call { op: "p_iter_all", a: &[full], n: &[], m: &[], e: &[] })?;
            let q = *r.p.get(lo)?;
            if ne { Some(q) } else { one(h, "q_no_proof", &[q], &[], 0) }
        }
        b'P' => {
            let a = synth(h, (b'Q', lo, lo, false))?;
            if lo == hi {
                if ne { return None }
                // run an iterator over [0, lo) until it is empty
                let r = one(h, "split_at_pointer", &[a], &[], 0)?;
                let m = vec![true; lo + 1];
                let run = h.exec(&Call { op: "p_iter", a: &[r], n: &[], m: &m, e: &[] })?;
                return run.p.last().cloned();
            }
            let b = synth(h, (b'Q', hi, hi, false))?;
            let r = one(h, "nonempty_range", &[a, b], &[], 0)?;
            if ne { Some(r) } else { one(h, "p_no_proof", &[r], &[], 0) }
        }
        b'S' => { let p = synth(h, (b'P', lo, hi, ne))?; one(h, "p_to_slice", &[p], &[], 0) }
        _ => None,
    }
}

fn random<'id, 'x, E: Elem>(r: &mut RandCfg<'x>, pool: &[P<'id, E>], base: Base, len: usize, nh: usize) -> Option<(Cmd, Vec<P<'id, E>>)> {
    let tot: usize = r.ops.iter().map(|x| x.1).sum();
    let mut x = r.rng.below(tot);
    let mut op = "";
    for (o, w) in r.ops { if x < *w { op = o; break } x -= w; }
    let mut cmd = Cmd { op: op.to_string(), c: r.rng.below(nh), ..Cmd::default() };
    let mut args = vec![];
    let (mut lo, mut hi) = (0usize, len);
    for ch in sig(op).bytes() {
        match ch {
            b'i' | b'I' | b'r' | b'R' | b'q' | b'Q' | b'p' | b'P' | b's' | b'S' => {
                let up = ch.to_ascii_uppercase();
                let cand: Vec<usize> = (0..pool.len()).filter(|&k| pool[k].kind() == up && (ch != up || pool[k].proven())).collect();
                if cand.is_empty() { return None }
                // half of the time one of the most recently issued
                let k = if r.rng.chance(1, 2) { cand[cand.len() - 1 - r.rng.below(cand.len().min(6))] } else { cand[r.rng.below(cand.len())] };
                let b = pool[k].bounds(base);
                lo = vpos(b.0); hi = vpos(b.1);
                args.push(pool[k]);
            }
            b'n' => { let v = number(&mut r.rng, len, lo, hi); cmd.n.push(v) }
            b'o' => { let v = offset(&mut r.rng, len, lo, hi); cmd.n.push(v) }
            b'd' if wide() => { let d = hi.wrapping_sub(lo);
                // (parts beyond the 60th are not looked at)
                let v = match r.rng.below(12) { 0 => HUGE[r.rng.below(8)], 1 => d.wrapping_add(1), 2 => d, 3 => wide_number(&mut r.rng, len, lo, hi), _ => 1 + r.rng.below(65) }; cmd.n.push(v.max(1)) }
            b'd' => { let v = if r.rng.chance(1, 6) { HUGE[r.rng.below(8)] } else { 1 + r.rng.below((hi.saturating_sub(lo) + 3).min(40)) }; cmd.n.push(v) }
            b'm' => { let most = if wide() { 4 } else if op.contains("iter") { len.min(1200) } else { len };
                let k = if r.rng.chance(1, 4) { r.rng.below(most + 3) } else { r.rng.below(len.min(if wide() { 4 } else { 40 }) + 3) };
                let p = if r.rng.chance(1, 4) { 10 } else { 1 + r.rng.below(9) }; cmd.m = (0..k).map(|_| r.rng.chance(p, 10)).collect() }
            b'j' => { let v = r.rng.below(8); cmd.n.push(v) }
            b'x' => { for _ in 0..1 + r.rng.below(5) {
                let j = if r.rng.chance(1, 3) { r.rng.below(hi.saturating_sub(lo) + 3) } else { r.rng.below(4) };
                let v = match r.rng.below(4) { 0 => 4 * j, 1 => 4 * j + 1, v => v };
                cmd.n.push(v) } }
            b'k' => { if r.rng.chance(1, 12) { let k = 1 + r.rng.below(len + 1); cmd.n.push(k) } }
            _ => {}
        }
    }
    if op == "w_iter" { for v in cmd.n.iter_mut() { if *v > 3 { *v = *v % 24 } } }
    if wide() { cmd.m.truncate(6); if op.starts_with("scan") { cmd.n.clear() } }
    if org() > 0 { if op == "scan_from_rev" { cmd.m.truncate(2); cmd.n.clear() } }
    Some((cmd, args))
}
/// Any 64 bit number, mostly where something could go wrong.
fn wide_number(rng: &mut Rng, len: usize, lo: usize, hi: usize) -> usize {
    let b = match rng.below(22) {
        0 => 0, 1 | 2 => lo, 3 | 4 => hi, 5 => len, 6 => hi.wrapping_sub(lo), 7 => len.wrapping_sub(lo), 8 => len.wrapping_sub(hi),
        9 => usize::MAX, 10 => usize::MAX - lo, 11 => usize::MAX - hi, 12 => isize::MAX as usize, 13 => 1 << rng.below(64),
        14 => (1usize << rng.below(64)).wrapping_mul(1 + rng.below(9)), 15 => rng.next() as usize, 16 => rng.next() as usize >> rng.below(63),
        17 => (len as u128 * rng.below(1000) as u128 / 1000) as usize, 18 => len / (1 + rng.below(9)),
        19 => lo.wrapping_add(hi.wrapping_sub(lo) / 2), 20 => len ^ (1 << rng.below(63)), _ => rng.below(40),
    };
    match rng.below(6) { 0 => b.wrapping_sub(1), 1 => b.wrapping_add(1), 2 => b.wrapping_add(rng.below(5)).wrapping_sub(2), _ => b }
}
pub fn wide_len(rng: &mut Rng) -> usize {
    let m = isize::MAX as usize;
    let v = match rng.below(8) {
        0 => m - rng.below(6), 1 => rng.below(70), 2 => (rng.next() as usize) & m, 3 => (rng.next() as usize & m) >> rng.below(63),
        4 => (3usize << 61) - 2 + rng.below(5), _ => (1usize << (1 + rng.below(62))) - 2 + rng.below(5) };
    v.min(m)
}
/// a storage length near, congruent to, or the same as another
pub fn wide_twin(rng: &mut Rng, len: usize) -> usize {
    let m = isize::MAX as usize;
    let v = match rng.below(9) {
        0 | 1 => len, 2 => len.wrapping_add(1), 3 => len.wrapping_sub(1), 4 => len ^ (1 << rng.below(63)),
        5 => len.wrapping_add(1 << (8 * (1 + rng.below(7)))), 6 => len & 0xffff_ffff, 7 => len & 0xffff, _ => len ^ (1 << 62) };
    if v > m { len } else { v }
}
fn number(rng: &mut Rng, len: usize, lo: usize, hi: usize) -> usize {
    if wide() { return wide_number(rng, len, lo, hi) }
    if org() > 0 {
        let at = |v: usize| org().saturating_add(v.max(3));
        return match rng.below(10) { 0 => usize::MAX, 1 => at(lo), 2 => at(hi), 3 => at(hi + 1), 4 => at(len), 5 => at(len + 1), _ => at(3 + rng.below(len)) };
    }
    match rng.below(10) {
        0 => HUGE[rng.below(8)],
        1 => HUGE[rng.below(8)].wrapping_add(rng.below(len + 2)),
        2 => lo, 3 => hi, 4 => lo.saturating_sub(1), 5 => hi + 1, 6 => len,
        _ => rng.below(len + 3),
    }
}
fn offset(rng: &mut Rng, len: usize, lo: usize, hi: usize) -> usize {
    if wide() { return wide_number(rng, len, lo, hi) }
    match rng.below(10) {
        0 => HUGE[rng.below(8)],
        1 => usize::MAX - rng.below(lo + 2),
        2 => usize::MAX - rng.below(hi + 2) + 0,
        3 => (1usize << 32) + rng.below(len + 2),
        4 => hi.saturating_sub(lo), 5 => len.saturating_sub(lo), 6 => len.saturating_sub(hi), 7 => len.saturating_sub(lo).saturating_sub(1),
        _ => rng.below(len + 2),
    }
}

fn far_slice<'b, E>(n: usize) -> &'b mut [E] {
    assert!(std::mem::size_of::<E>() == 0);
    unsafe { std::slice::from_raw_parts_mut(std::ptr::NonNull::dangling().as_ptr(), n) }
}

pub fn session<'x, E: Elem>(out: &mut Out, kind: Kind, len: usize, twins: Vec<(usize, bool)>, start_only: bool, src: Src<'x>) -> (u64, u64)
    where Src<'x>: 'x
{
    for l in LIVE.iter() { l.store(0, Relaxed) }
    let mut ids = Ids { next: 1 };
    let far = unseen();
    let mut back: Back<E> = Back::new(if kind.fixed() && !far { len } else { 0 }, &mut ids);
    #[allow(unused_mut)]
    let mut vec: Vec<E> = if kind.fixed() || far { vec![] } else { (0..len).map(|_| ids.mk()).collect() };
    if far { assert!(std::mem::size_of::<E>() == 0 && !std::mem::needs_drop::<E>()); }
    if far && !kind.fixed() { unsafe { vec.set_len(org() + len) } }
    let mut tb: Vec<Back<E>> = twins.iter().map(|t| Back::new(if far { 0 } else { t.0 }, &mut ids)).collect();
    let cur0: Vec<u32> = if wide() { vec![] } else if far { vec![0; len] } else if kind.fixed() { back.ids() } else { vec.iter().map(|e| e.id()).collect() };
    out.line(&format!("{{\"op\":\"open\",\"a\":[],\"n\":[],\"m\":[{},{},{}],\"e\":[],\"c\":1,\"s\":\"ok\",\"p\":[],\"i\":[],\"l\":[],\"b\":[],\"bs\":[{}],\"t\":\"{}{}/{:?}\"{}}}",
        kind.exclusive(), kind.fixed(), kind.growable(), jids(&cur0), E::NAME, if wide() { format!("#{}", len) } else if far { format!("@{}", org()) } else { String::new() }, kind, lens(len, len)));
    let mut s = Sess { out, src, ids, cur: vec![cur0], count: len, skipped: 0, ran: 0, kind, twins: twins.clone() };
    let fin;
    {
        let bufs: Vec<Buf<E>> = if far { twins.iter().map(|t| { let n = org() + t.0; if t.1 { Buf::Mu(far_slice(n)) } else { Buf::Sh(far_slice(n)) } }).collect() } else { tb.iter_mut().zip(&twins).map(|(b, t)| if t.1 { Buf::Mu(b.data_mut()) } else { Buf::Sh(b.data()) }).collect() };
        macro_rules! go { ($arr:expr, $probe:expr) => {{ let (arr, probe) = ($arr, $probe);
            indexing::scope(arr, |c| if start_only {
                s.plain("only", 0, &[], &[], "ok", &[], &[], "[]");
                s.body(BoxH::from(H { c: c.only_index(), probe }), bufs)
            } else { s.body(BoxH::from(H { c, probe }), bufs) }) }} }
        fin = match kind {
            Kind::Sh => { let d: &[E] = if far { far_slice(org() + len) } else { back.data() }; go!(d, Probe::Slice(d.as_ptr(), d.len())) }
            Kind::Mu => { let d: &mut [E] = if far { far_slice(org() + len) } else { back.data_mut() }; let p = Probe::Slice(d.as_ptr(), d.len()); go!(d, p) }
            Kind::RR => { let d: &[E] = if far { far_slice(org() + len) } else { back.data() }; go!(&d, Probe::Slice(d.as_ptr(), d.len())) }
            Kind::MM => { let mut d: &mut [E] = if far { far_slice(org() + len) } else { back.data_mut() }; let p = Probe::Slice(d.as_ptr(), d.len()); go!(&mut d, p) }
            #[cfg(feature = "vec")] Kind::Vec => { let v = std::mem::take(&mut vec); go!(v, Probe::Own) }
            #[cfg(feature = "vec")] Kind::RVec => { let p = Probe::Vec(&vec); go!(&vec, p) }
            #[cfg(feature = "vec")] Kind::MVec => { let p = Probe::Vec(&vec); go!(&mut vec, p) }
            #[cfg(feature = "vec")] Kind::MMVec => { let p = Probe::Vec(&vec); let mut v = &mut vec; go!(&mut v, p) }
            #[cfg(not(feature = "vec"))] _ => { let _ = &bufs; vec![] }
        };
    }
    let guards = back.guards_ok() && tb.iter().all(|b| b.guards_ok());
    let after = match kind {
        _ if wide() => true,
        _ if far => kind.fixed() || matches!(kind, Kind::Vec) || vpos(vec.len()) == fin[0].len(),
        _ if kind.fixed() => back.ids() == fin[0],
        Kind::Vec => true,
        _ => vec.iter().map(|e| e.id()).collect::<Vec<_>>() == fin[0],
    };
    let (ran, skipped, next) = (s.ran, s.skipped, s.ids.next);
    drop(back); drop(vec); drop(tb);
    let live = LIVE.iter().take(next as usize + 1).all(|l| l.load(Relaxed) == 0);
    let bs = jbs(&fin);
    s.plain("close", 0, &[], &[], "ok", &[], &[guards, live, after], &bs);
    s.out.flush();
    (ran, skipped)
}
