//! Type-erased containers: every storage kind and mode of the crate.
use crate::elem::Elem;
use crate::exec::*;
use crate::part::*;
use indexing::container::OnlyIndex;
use indexing::Container;

/// How the harness looks at the true contents, without the crate's help.
pub enum Probe<E> {
    Slice(*const E, usize),
    #[cfg(feature = "vec")] Vec(*const Vec<E>),
    /// storage moved into the container: seen through `&c[..]`
    Own,
}
impl<E> Clone for Probe<E> { fn clone(&self) -> Self { match self {
    Probe::Slice(p, n) => Probe::Slice(*p, *n),
    #[cfg(feature = "vec")] Probe::Vec(v) => Probe::Vec(*v),
    Probe::Own => Probe::Own } } }
impl<E: Elem> Probe<E> {
    fn count(&self, own: &[E]) -> usize {
        match self {
            Probe::Slice(_, n) => *n,
            #[cfg(feature = "vec")] Probe::Vec(v) => unsafe { (**v).len() },
            Probe::Own => own.len(),
        }
    }
    fn look(&self, own: &[E]) -> (usize, Vec<u32>) {
        let (p, n) = match self {
            Probe::Slice(p, n) => (*p, *n),
            #[cfg(feature = "vec")] Probe::Vec(v) => unsafe { ((**v).as_ptr(), (**v).len()) },
            Probe::Own => (own.as_ptr(), own.len()),
        };
        if crate::out::wide() { return (p as usize, vec![]) }
        if crate::out::org() > 0 { return (p as usize, vec![0; crate::out::vpos(n).min(1 << 20)]) }
        (p as usize, (0..n).map(|i| unsafe { (*p.add(i)).id() }).collect())
    }
}

pub enum Buf<'a, E> { Sh(&'a [E]), Mu(&'a mut [E]) }

pub const MUT: u32 = 1;
pub const GROW: u32 = 2;
pub const PTR: u32 = 4;
pub const CLONE: u32 = 8;
pub const TWIN: u32 = 16;
pub const FULLMUT: u32 = 32;
pub const PTRMUT: u32 = 64;

pub struct H<'id, A, M, E> { pub c: Container<'id, A, M>, pub probe: Probe<E> }

macro_rules! caps {
    ($($c:ident)*) => { 0 $(| $c)* };
}
macro_rules! try_part {
    ($s:ident $k:ident RO) => { if let Some(r) = exec_ro(&$s.c, $k) { return Some(r) } };
    ($s:ident $k:ident MUT) => { if let Some(r) = exec_mut(&mut $s.c, $k) { return Some(r) } };
    ($s:ident $k:ident GROW) => { if let Some(r) = exec_grow(&mut $s.c, $k) { return Some(r) } };
    ($s:ident $k:ident FULLMUT) => { if let Some(r) = exec_mut_full(&mut $s.c, $k) { return Some(r) } };
    ($s:ident $k:ident PTR) => { #[cfg(feature = "ptr")] { if let Some(r) = exec_ptr(&$s.c, $k) { return Some(r) } } };
    ($s:ident $k:ident PTRMUT) => { #[cfg(feature = "ptr")] {
        let b = Base { addr: $s.probe.look(&$s.c[..]).0, esz: std::mem::size_of::<E>() };
        if let Some(r) = exec_ptr_mut(&mut $s.c, $k, b) { return Some(r) } } };
    ($s:ident $k:ident CLONE) => { };
    ($s:ident $k:ident TWIN) => { };
}
macro_rules! dup {
    ($v:ident $s:ident CLONE $($r:ident)*) => { Some(BoxH::$v(H { c: $s.c.clone(), probe: $s.probe.clone() })) };
    ($v:ident $s:ident $x:ident $($r:ident)*) => { dup!($v $s $($r)*) };
    ($v:ident $s:ident) => { None };
}
macro_rules! twin {
    ($s:ident $buf:ident TWIN $($r:ident)*) => { Some(match $buf {
        Buf::Sh(t) => { let probe = Probe::Slice(t.as_ptr(), t.len());
            $s.c.make_twin(t).map_err(|_| ()).map(|c| BoxH::ShO(H { c, probe })) }
        Buf::Mu(t) => { let probe = Probe::Slice(t.as_ptr(), t.len());
            $s.c.make_twin(t).map_err(|_| ()).map(|c| BoxH::MuO(H { c, probe })) }
    }) };
    ($s:ident $buf:ident $x:ident $($r:ident)*) => { twin!($s $buf $($r)*) };
    ($s:ident $buf:ident) => { { let _ = $buf; None } };
}
macro_rules! handles {
    ($($(#[$at:meta])* $v:ident, $vo:ident, $a:ty, [$($f:ident)*], [$($fo:ident)*];)*) => {
        pub enum BoxH<'id, 'a, E> {
            $( $(#[$at])* $v(H<'id, $a, (), E>), $(#[$at])* $vo(H<'id, $a, OnlyIndex, E>), )*
            Dead(std::marker::PhantomData<(&'id (), &'a E)>),
        }
        $( $(#[$at])* impl<'id, 'a, E> From<H<'id, $a, (), E>> for BoxH<'id, 'a, E> { fn from(h: H<'id, $a, (), E>) -> Self { BoxH::$v(h) } }
           $(#[$at])* impl<'id, 'a, E> From<H<'id, $a, OnlyIndex, E>> for BoxH<'id, 'a, E> { fn from(h: H<'id, $a, OnlyIndex, E>) -> Self { BoxH::$vo(h) } } )*
        impl<'id, 'a, E: Elem> BoxH<'id, 'a, E> {
            pub fn caps(&self) -> u32 { match self {
                $( $(#[$at])* BoxH::$v(_) => caps!($($f)*), $(#[$at])* BoxH::$vo(_) => caps!($($fo)*), )* _ => 0 } }
            pub fn only(self) -> Self { match self {
                $( $(#[$at])* BoxH::$v(s) => BoxH::$vo(H { c: s.c.only_index(), probe: s.probe }),
                   $(#[$at])* BoxH::$vo(s) => BoxH::$vo(H { c: s.c.only_index(), probe: s.probe }), )* x => x } }
            pub fn dup(&self) -> Option<Self> { match self {
                $( $(#[$at])* BoxH::$v(_s) => dup!($v _s $($f)*), $(#[$at])* BoxH::$vo(_s) => dup!($vo _s $($fo)*), )* _ => None } }
            pub fn twin(&self, buf: Buf<'a, E>) -> Option<Result<Self, ()>> { match self {
                $( $(#[$at])* BoxH::$v(_s) => twin!(_s buf $($f)*), $(#[$at])* BoxH::$vo(_s) => twin!(_s buf $($fo)*), )* _ => None } }
            pub fn exec(&mut self, k: &Call<'id, '_, E>) -> Option<Res<'id, E>> { match self {
                $( $(#[$at])* BoxH::$v(s) => { $( try_part!(s k $f); )* exec_ro(&s.c, k) }
                   $(#[$at])* BoxH::$vo(s) => { $( try_part!(s k $fo); )* exec_ro(&s.c, k) } )* _ => None } }
            pub fn look(&self) -> (usize, Vec<u32>) { match self {
                $( $(#[$at])* BoxH::$v(s) => s.probe.look(&s.c[..]), $(#[$at])* BoxH::$vo(s) => s.probe.look(&s.c[..]), )* _ => (0, vec![]) } }
            pub fn count(&self) -> usize { match self {
                $( $(#[$at])* BoxH::$v(s) => s.probe.count(&s.c[..]), $(#[$at])* BoxH::$vo(s) => s.probe.count(&s.c[..]), )* _ => 0 } }
            pub fn base(&self) -> Base { Base { addr: self.look().0, esz: std::mem::size_of::<E>() } }
        }
    };
}
handles! {
    Sh, ShO, &'a [E], [PTR CLONE TWIN], [CLONE TWIN];
    Mu, MuO, &'a mut [E], [MUT FULLMUT PTR PTRMUT TWIN], [MUT TWIN];
    RR, RRO, &'a &'a [E], [PTR CLONE TWIN], [CLONE TWIN];
    MM, MMO, &'a mut &'a mut [E], [MUT FULLMUT PTR PTRMUT TWIN], [MUT TWIN];
    #[cfg(feature = "vec")] Ve, VeO, Vec<E>, [MUT FULLMUT PTR PTRMUT], [MUT GROW];
    #[cfg(feature = "vec")] RVe, RVeO, &'a Vec<E>, [PTR], [];
    #[cfg(feature = "vec")] MVe, MVeO, &'a mut Vec<E>, [MUT FULLMUT PTR PTRMUT], [MUT GROW];
    #[cfg(feature = "vec")] MMVe, MMVeO, &'a mut &'a mut Vec<E>, [MUT FULLMUT PTR PTRMUT], [MUT GROW];
}
