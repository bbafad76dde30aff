//! Element types used by the conformance harness. Every element carries a
//! unique id; `D` also counts its live instances, so that an element which is
//! duplicated, lost or dropped twice is seen.
use std::sync::atomic::{AtomicI32, Ordering::Relaxed};

pub trait Elem: Sized + 'static {
    const NAME: &'static str;
    const MAX: usize;
    fn mk(id: u32) -> Self;
    fn id(&self) -> u32;
    /// the id an element made from `id` reports
    fn norm(id: u32) -> u32 { id }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct W(pub u32);
impl Elem for W {
    const NAME: &'static str = "w4";
    const MAX: usize = 1 << 20;
    fn mk(id: u32) -> Self { W(id) }
    fn id(&self) -> u32 { self.0 }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct B1(pub u8);
impl Elem for B1 {
    const NAME: &'static str = "b1";
    const MAX: usize = 250;
    fn mk(id: u32) -> Self { B1(id as u8) }
    fn id(&self) -> u32 { self.0 as u32 }
}

pub const NID: usize = 1 << 16;
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicI32 = AtomicI32::new(0);
pub static LIVE: [AtomicI32; NID] = [ZERO; NID];

/// 24 bytes, with a destructor. The id is kept inline (and in complement), so
/// that reading garbage is recognised instead of followed.
pub struct D { a: u64, b: u64, _pad: u64 }
impl Elem for D {
    const NAME: &'static str = "d24";
    const MAX: usize = NID - 1;
    fn mk(id: u32) -> Self {
        LIVE[id as usize].fetch_add(1, Relaxed);
        D { a: id as u64, b: !(id as u64), _pad: 7 }
    }
    fn id(&self) -> u32 {
        if self.a == !self.b && (self.a as usize) < NID { self.a as u32 } else { 999_999_999 }
    }
}
impl Drop for D {
    fn drop(&mut self) {
        let id = self.id() as usize;
        if id < NID { LIVE[id].fetch_sub(1, Relaxed); }
    }
}

/// 1040 bytes, aligned to 16, with a destructor.
#[repr(align(16))]
pub struct X { a: u64, _pad: [u64; 127], b: u64, _tail: u8 }
impl Elem for X {
    const NAME: &'static str = "x1040";
    const MAX: usize = NID - 1;
    fn mk(id: u32) -> Self {
        LIVE[id as usize].fetch_add(1, Relaxed);
        X { a: id as u64, _pad: [id as u64 * 3; 127], b: !(id as u64), _tail: id as u8 }
    }
    fn id(&self) -> u32 {
        if self.a == !self.b && (self.a as usize) < NID && self._tail == self.a as u8 && self._pad.iter().all(|&p| p == self.a * 3) { self.a as u32 } else { 999_999_999 }
    }
}
impl Drop for X {
    fn drop(&mut self) {
        let id = self.id() as usize;
        if id < NID { LIVE[id].fetch_sub(1, Relaxed); }
    }
}

/// three bytes, no alignment
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct T3(pub [u8; 3]);
impl Elem for T3 {
    const NAME: &'static str = "t3";
    const MAX: usize = 1 << 20;
    fn mk(id: u32) -> Self { let b = id.to_le_bytes(); T3([b[0], b[1], b[2]]) }
    fn id(&self) -> u32 { u32::from_le_bytes([self.0[0], self.0[1], self.0[2], 0]) }
}

/// Zero sized: all elements look alike.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Z;
impl Elem for Z {
    const NAME: &'static str = "zst";
    const MAX: usize = 1 << 20;
    fn mk(_: u32) -> Self { Z }
    fn id(&self) -> u32 { 0 }
    fn norm(_: u32) -> u32 { 0 }
}
