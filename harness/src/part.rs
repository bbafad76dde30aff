//! A dynamically typed trusted position: every index/range/pointer type of the
//! crate, for both proofs. Results of calls are converted through `ToP`, which
//! is implemented for every concrete type, so the static proof that the crate
//! attached to a result is recorded as data.
use crate::elem::Elem;
use crate::out::*;
#[cfg(feature = "ptr")]
use indexing::pointer::{PIndex, PRange, PSlice};
use indexing::{Index, NonEmpty, Range, Unknown};

pub enum P<'id, E> {
    IN(Index<'id, NonEmpty>),
    IU(Index<'id, Unknown>),
    RN(Range<'id, NonEmpty>),
    RU(Range<'id, Unknown>),
    #[cfg(feature = "ptr")] QN(PIndex<'id, E, NonEmpty>),
    #[cfg(feature = "ptr")] QU(PIndex<'id, E, Unknown>),
    #[cfg(feature = "ptr")] PN(PRange<'id, E, NonEmpty>),
    #[cfg(feature = "ptr")] PU(PRange<'id, E, Unknown>),
    #[cfg(feature = "ptr")] SN(PSlice<'id, E, NonEmpty>),
    #[cfg(feature = "ptr")] SU(PSlice<'id, E, Unknown>),
    /// a position inside another brand's container, already printed
    Raw(&'static str, usize, usize, &'static str, std::marker::PhantomData<*const E>),
}
impl<'id, E> Clone for P<'id, E> { fn clone(&self) -> Self { *self } }
impl<'id, E> Copy for P<'id, E> {}

pub trait ToP<'id, E> { fn top(self) -> P<'id, E>; }
macro_rules! top { ($($t:ty => $v:ident),*) => { $( impl<'id, E> ToP<'id, E> for $t { fn top(self) -> P<'id, E> { P::$v(self) } } )* } }
top! { Index<'id, NonEmpty> => IN, Index<'id, Unknown> => IU, Range<'id, NonEmpty> => RN, Range<'id, Unknown> => RU }
#[cfg(feature = "ptr")]
top! { PIndex<'id, E, NonEmpty> => QN, PIndex<'id, E, Unknown> => QU, PRange<'id, E, NonEmpty> => PN, PRange<'id, E, Unknown> => PU,
       PSlice<'id, E, NonEmpty> => SN, PSlice<'id, E, Unknown> => SU }

/// Where the storage starts: pointers are reported as element positions.
#[derive(Clone, Copy)]
pub struct Base { pub addr: usize, pub esz: usize }
impl Base {
    pub fn pos<E>(&self, p: *const E) -> usize {
        let a = p as usize;
        if self.esz == 0 { return if a == self.addr { 0 } else { CAP } }
        if a < self.addr || (a - self.addr) % self.esz != 0 { CAP } else { (a - self.addr) / self.esz }
    }
}

impl<'id, E: Elem> P<'id, E> {
    pub fn kind(&self) -> u8 {
        match self {
            P::IN(_) | P::IU(_) => b'I',
            P::RN(_) | P::RU(_) => b'R',
            #[cfg(feature = "ptr")] P::QN(_) | P::QU(_) => b'Q',
            #[cfg(feature = "ptr")] P::PN(_) | P::PU(_) => b'P',
            #[cfg(feature = "ptr")] P::SN(_) | P::SU(_) => b'S',
            P::Raw(k, ..) => k.as_bytes()[0],
        }
    }
    pub fn proven(&self) -> bool {
        match self {
            P::IN(_) | P::RN(_) => true,
            #[cfg(feature = "ptr")] P::QN(_) | P::PN(_) | P::SN(_) => true,
            P::Raw(_, _, _, p, _) => *p == "N",
            _ => false,
        }
    }
    pub fn bounds(&self, b: Base) -> (usize, usize) {
        let _ = b;
        match *self {
            P::IN(i) => (i.integer(), i.integer()),
            P::IU(i) => (i.integer(), i.integer()),
            P::RN(r) => (r.start(), r.end()),
            P::RU(r) => (r.start(), r.end()),
            #[cfg(feature = "ptr")] P::QN(q) => (b.pos(q.ptr()), b.pos(q.ptr())),
            #[cfg(feature = "ptr")] P::QU(q) => (b.pos(q.ptr()), b.pos(q.ptr())),
            #[cfg(feature = "ptr")] P::PN(r) => (b.pos(r.first().ptr()), b.pos(r.past_the_end().ptr())),
            #[cfg(feature = "ptr")] P::PU(r) => (b.pos(r.first().ptr()), b.pos(r.past_the_end().ptr())),
            #[cfg(feature = "ptr")] P::SN(r) => { let s = b.pos(r.first().ptr()); (s, s.wrapping_add(r.len())) }
            #[cfg(feature = "ptr")] P::SU(r) => { let s = b.pos(r.first().ptr()); (s, s.wrapping_add(r.len())) }
            P::Raw(_, a, z, _, _) => (a, z),
        }
    }
    pub fn json(&self, b: Base) -> String {
        let (lo, hi) = self.bounds(b);
        format!("[\"{}\",{},{},\"{}\"]", self.kind() as char, jnum(sat(vpos(lo))), jnum(sat(vpos(hi))), if self.proven() { "N" } else { "U" })
    }
    /// In bounds and truthful: only such positions are used any further (a bad
    /// one has already been logged as the result that TLC rejects).
    pub fn sane(&self, b: Base, len: usize) -> bool {
        let (lo, hi) = self.bounds(b);
        let idx = matches!(self.kind(), b'I' | b'Q');
        let (lo, hi) = (vpos(lo), vpos(hi));
        (org() == 0 || (lo >= 3 && hi >= 3)) && lo <= hi && hi <= len && (!self.proven() || if idx { lo < len } else { lo < hi })
    }
}

pub struct Call<'id, 'c, E> {
    pub op: &'c str,
    pub a: &'c [P<'id, E>],
    pub n: &'c [usize],
    pub m: &'c [bool],
    pub e: &'c [u32],
}

pub struct Res<'id, E> {
    pub s: &'static str,
    pub p: Vec<P<'id, E>>,
    pub i: Vec<u64>,
    pub l: Vec<Vec<u32>>,
    pub b: Vec<bool>,
}
impl<'id, E: Elem> Res<'id, E> {
    pub fn new(s: &'static str) -> Self { Res { s, p: vec![], i: vec![], l: vec![], b: vec![] } }
    pub fn ok() -> Self { Self::new("ok") }
    pub fn err() -> Self { Self::new("err") }
    pub fn p<X: ToP<'id, E>>(mut self, x: X) -> Self { self.p.push(x.top()); self }
    pub fn pp(mut self, x: P<'id, E>) -> Self { self.p.push(x); self }
    pub fn i(mut self, x: usize) -> Self { self.i.push(sat(vnum(x))); self }
    pub fn b(mut self, x: bool) -> Self { self.b.push(x); self }
    pub fn l(mut self, it: &[E]) -> Self {
        if wide() { self.i.push(it.len() as u64) } else { self.l.push(it.iter().map(|e| e.id()).collect()) }
        self
    }
    pub fn lv(mut self, v: Vec<u32>) -> Self { if wide() { self.i.push(v.len() as u64) } else { self.l.push(v) } self }
    pub fn json(&self, b: Base) -> String {
        let mut s = format!("\"s\":\"{}\",\"p\":[", self.s);
        for (k, p) in self.p.iter().enumerate() { if k > 0 { s.push(','); } s.push_str(&p.json(b)); }
        s.push_str("],\"i\":"); s.push_str(&jints(self.i.iter().cloned()));
        s.push_str(",\"l\":["); for (k, v) in self.l.iter().enumerate() { if k > 0 { s.push(','); } s.push_str(&jids(v)); }
        s.push_str("],\"b\":"); s.push_str(&jbools(&self.b));
        s
    }
}
impl<'id, 'c, E: Elem> Call<'id, 'c, E> {
    pub fn json(&self, b: Base) -> String {
        let mut s = format!("\"op\":\"{}\",\"a\":[", self.op);
        for (k, p) in self.a.iter().enumerate() { if k > 0 { s.push(','); } s.push_str(&p.json(b)); }
        s.push_str("],\"n\":"); s.push_str(&jints(self.n.iter().map(|&x| sat(if matches!(self.op, "vet" | "vet_range" | "contains") { vpos(x) } else { x }))));
        s.push_str(",\"m\":"); s.push_str(&jbools(self.m));
        s.push_str(",\"e\":"); s.push_str(&jids(self.e));
        s
    }
}
