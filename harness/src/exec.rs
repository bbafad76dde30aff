//! One arm per public operation: calls the real crate and records the outcome.
use crate::elem::Elem;
use crate::part::*;
#[cfg(feature = "ptr")]
use indexing::container_traits::Contiguous as _Contig;
use indexing::container_traits::*;
use indexing::container::OnlyIndex;
use indexing::indexing::IntoCheckedRange;
#[cfg(feature = "ptr")]
use indexing::pointer::*;
use indexing::proof::Provable;
use indexing::{Container, Unknown};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

macro_rules! ei { ($p:expr, $x:ident => $b:expr) => { match $p { P::IN($x) => $b, P::IU($x) => $b, _ => return None } } }
macro_rules! er { ($p:expr, $x:ident => $b:expr) => { match $p { P::RN($x) => $b, P::RU($x) => $b, _ => return None } } }
macro_rules! ni { ($p:expr) => { match $p { P::IN(x) => x, _ => return None } } }
macro_rules! nr { ($p:expr) => { match $p { P::RN(x) => x, _ => return None } } }
#[cfg(feature = "ptr")]
macro_rules! eq_ { ($p:expr, $x:ident => $b:expr) => { match $p { P::QN($x) => $b, P::QU($x) => $b, _ => return None } } }
#[cfg(feature = "ptr")]
macro_rules! ep { ($p:expr, $x:ident => $b:expr) => { match $p { P::PN($x) => $b, P::PU($x) => $b, _ => return None } } }
#[cfg(feature = "ptr")]
macro_rules! es { ($p:expr, $x:ident => $b:expr) => { match $p { P::SN($x) => $b, P::SU($x) => $b, _ => return None } } }

fn flip<E>(s: &mut [E]) { if !crate::out::wide() { s.reverse() } }
fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn ord(o: Ordering) -> usize { match o { Ordering::Less => 0, Ordering::Equal => 1, Ordering::Greater => 2 } }
fn pord(o: Option<Ordering>) -> usize { o.map_or(3, ord) }
macro_rules! cmps { ($a:expr, $b:expr, $key:expr) => {{ let (a, b, key) = ($a, $b, $key);
    Res::ok().b(a == b).b(a != b).b(a < b).b(a <= b).b(a > b).b(a >= b)
        .i(pord(a.partial_cmp(&b))).i(if hash(&a) == hash(&b) { 1 } else { 0 }).i(if hash(&a) == hash(&key) { 1 } else { 0 }) }} }
macro_rules! ords { ($a:expr, $b:expr) => {{ let (a, b) = ($a, $b);
    Res::ok().i(ord(a.cmp(&b))).p(a.max(b)).p(a.min(b)).b(a < b).b(a <= b).b(a > b).b(a >= b).b(a == b) }} }

/// Remaining length according to the iterator's own size hint must be possible.
macro_rules! iter_run { ($r:expr, $k:expr) => {{
    let mut it = $r.into_iter();
    let mut res = Res::ok().p(it.into_range());
    for &front in $k.m {
        let (lo, hi) = it.size_hint();
        let y = if front { it.next() } else { it.next_back() };
        let rest = { let mut c = 0usize; let mut j = it; while let Some(_) = j.next() { c += 1; if c > 100_000 { break } } c + y.is_some() as usize };
        res = match y { Some(x) => res.p(x).b(true), None => res.p(it.into_range()).b(false) };
        res = res.p(it.into_range()).b(lo <= rest && hi.map_or(true, |h| h >= rest));
    }
    res
}} }
macro_rules! iter_all { ($r:expr) => {{
    let mut res = Res::ok();
    let mut c = 0usize;
    for x in $r { res = res.p(x); c += 1; if c > 100_000 { break } }
    let mut it = $r.into_iter().rev();
    while let Some(x) = it.next() { res = res.p(x); c += 1; if c > 200_000 { break } }
    res.i($r.into_iter().count()).i($r.into_iter().rev().count())
}} }

/// Steps 4j: nth(j), 4j+1: nth_back(j), 2: next, 3: next_back; then what the
/// rest of the iterator says about itself.
macro_rules! iter_x { ($r:expr, $k:expr) => {{
    let mut it = $r.into_iter();
    let mut res = Res::ok();
    for &v in $k.n {
        let y = match v % 4 { 0 => it.nth(v / 4), 1 => it.nth_back(v / 4), 2 => it.next(), _ => it.next_back() };
        res = match y { Some(x) => res.p(x).b(true), None => res.p(it.into_range()).b(false) };
        res = res.p(it.into_range());
    }
    let (lo, hi) = it.size_hint();
    res = res.i(lo).i(hi.unwrap_or(usize::MAX)).i(it.clone().count());
    let mut v = vec![];
    it.clone().fold((), |_, x| if v.len() < 100_000 { v.push(x) });
    it.clone().rfold((), |_, x| if v.len() < 200_000 { v.push(x) });
    v.extend(it.clone().step_by(2).take(100_000));
    v.extend(it.clone().skip(1).take(2));
    v.extend(it.clone().last());
    v.extend(it.by_ref().rev().take(1));
    for x in v { res = res.p(x) }
    res
}} }
/// The same steps on an iterator of any length.
macro_rules! iter_w { ($r:expr, $k:expr) => {{
    let mut it = $r.into_iter();
    let mut res = Res::ok();
    for &v in $k.n {
        let y = match v % 4 { 0 => it.nth(v / 4), 1 => it.nth_back(v / 4), 2 => it.next(), _ => it.next_back() };
        res = match y { Some(x) => res.p(x).b(true), None => res.p(it.into_range()).b(false) };
        res = res.p(it.into_range());
    }
    let (lo, hi) = it.size_hint();
    res = res.i(lo).i(hi.unwrap_or(usize::MAX));
    for x in it.clone().take(3) { res = res.p(x) }
    for x in it.rev().take(3) { res = res.p(x) }
    res
}} }
macro_rules! subdivide_x { ($r:expr, $k:expr) => {{
    let it = $r.subdivide($k.n[0]);
    let (lo, hi) = it.size_hint();
    let mut res = Res::ok().i(lo).i(hi.unwrap_or(usize::MAX)).i(it.clone().count());
    let mut v = vec![];
    let mut a = it.clone();
    while let Some(x) = a.next() { v.push(x); if v.len() > 3000 { break } }
    it.clone().fold((), |_, x| if v.len() < 9000 { v.push(x) });
    let mut b = it.clone();
    v.extend(b.nth($k.n[1]));
    v.extend(b.take(3001));
    v.extend(it.clone().step_by(2).take(3001));
    v.extend(it.last());
    for x in v { res = res.p(x) }
    res
}} }
/// Pure operations on trusted indices and ranges.
pub fn exec_part<'id, E: Elem>(k: &Call<'id, '_, E>) -> Option<Res<'id, E>> {
    let a = k.a;
    let n = k.n;
    let ok = Res::ok;
    Some(match k.op {
        // Index
        "i_integer" => ei!(a[0], x => ok().i(x.integer())),
        "i_after" => ok().p(ni!(a[0]).after()),
        "i_no_proof" => ei!(a[0], x => ok().p(x.no_proof())),
        "i_copy" => ei!(a[0], x => { let y = x.clone(); let z = x; ok().p(y).p(z) }),
        "cmp_i" => ei!(a[0], x => ei!(a[1], y => cmps!(x, y, x.integer()))),
        "ord_i" => match (a[0], a[1]) {
            (P::IN(x), P::IN(y)) => ords!(x, y),
            (P::IU(x), P::IU(y)) => ords!(x, y),
            _ => return None,
        },
        // Range
        "r_len" => er!(a[0], r => ok().i(r.len())),
        "r_is_empty" => er!(a[0], r => ok().b(r.is_empty())),
        "r_start" => er!(a[0], r => ok().i(r.start())),
        "r_end" => er!(a[0], r => ok().i(r.end())),
        "r_as_range" => er!(a[0], r => { let q = r.as_range(); ok().i(q.start).i(q.end) }),
        "r_copy" => er!(a[0], x => { let y = x.clone(); let z = x; ok().p(y).p(z) }),
        "nonempty" => er!(a[0], r => match r.nonempty() { Ok(x) => ok().p(x), Err(_) => Res::err() }),
        "into_checked" => er!(a[0], r => match IntoCheckedRange::into(r) { Ok(x) => ok().p(x), Err(_) => Res::err() }),
        "split_in_half" => er!(a[0], r => { let (x, y) = r.split_in_half(); ok().p(x).p(y) }),
        "r_split_at" => er!(a[0], r => { let (x, y, f) = r.split_at(n[0]); ok().p(x).p(y).b(f) }),
        "contains" => er!(a[0], r => match r.contains(n[0]) { Some(x) => ok().p(x), None => Res::new("none") }),
        "subdivide" => er!(a[0], r => {
            let mut res = ok();
            let mut it = r.subdivide(n[0]);
            let mut c = 0usize;
            while let Some(x) = it.next() { res = res.p(x); c += 1; if c > 3000 || (c == 60 && crate::out::wide()) { break } }
            if crate::out::wide() { return Some(res) }
            res.b(it.next().is_none()).b(it.next().is_none())
        }),
        "join" => er!(a[0], r => er!(a[1], s => match r.join(s) { Ok(x) => ok().p(x), Err(_) => Res::err() })),
        "join_cover" => er!(a[0], r => er!(a[1], s => ok().p(r.join_cover(s)))),
        "join_cover_both" => er!(a[0], r => er!(a[1], s => ok().p(r.join_cover_both(s)))),
        "frontiers" => er!(a[0], r => { let (x, y) = r.frontiers(); ok().p(x).p(y) }),
        "r_forward_by" => er!(a[0], r => { let mut i = ni!(a[1]); let f = r.forward_by(&mut i, n[0]); ok().b(f).p(i) }),
        "r_forward_range_by" => er!(a[0], r => er!(a[1], s => ok().p(r.forward_range_by(s, n[0])))),
        "r_no_proof" => er!(a[0], r => ok().p(r.no_proof()).p(Provable::no_proof(r)).p(indexing::Range::no_proof(&r))),
        "first" => er!(a[0], r => ok().p(r.first())),
        "upper_middle" => er!(a[0], r => ok().p(r.upper_middle())),
        "past_the_end" => er!(a[0], r => ok().p(r.past_the_end())),
        "lower_middle" => ok().p(nr!(a[0]).lower_middle()),
        "last" => ok().p(nr!(a[0]).last()),
        "tail" => ok().p(nr!(a[0]).tail()),
        "init" => ok().p(nr!(a[0]).init()),
        "advance_" => match nr!(a[0]).advance_() { Ok(x) => ok().p(x), Err(_) => Res::err() },
        "advance" => { let mut r = nr!(a[0]); let f = r.advance(); ok().b(f).p(r) }
        "advance_by" => { let mut r = nr!(a[0]); let f = r.advance_by(n[0]); ok().b(f).p(r) }
        "advance_back" => { let mut r = nr!(a[0]); let f = r.advance_back(); ok().b(f).p(r) }
        "iter" => er!(a[0], r => iter_run!(r, k)),
        "iter_all" => er!(a[0], r => iter_all!(r)),
        "w_iter" => er!(a[0], r => iter_w!(r, k)),
        "iter_x" => er!(a[0], r => iter_x!(r, k)),
        "subdivide_x" => er!(a[0], r => subdivide_x!(r, k)),
        "cmp_r" => er!(a[0], x => er!(a[1], y => cmps!(x, y, (x.start(), x.end())))),
        "ord_r" => match (a[0], a[1]) {
            (P::RN(x), P::RN(y)) => ords!(x, y),
            (P::RU(x), P::RU(y)) => ords!(x, y),
            _ => return None,
        },
        _ => return None,
    })
}

/// Operations on any container.
pub fn exec_ro<'id, A, M, E: Elem>(c: &Container<'id, A, M>, k: &Call<'id, '_, E>) -> Option<Res<'id, E>>
    where A: Contiguous<Item = E> + GetUnchecked
{
    let a = k.a;
    let n = k.n;
    let ok = Res::ok;
    Some(match k.op {
        "len" => ok().i(c.len()),
        "range" => ok().p(c.range()),
        "empty_range" => ok().p(c.empty_range()),
        "vet" => match c.vet(n[0]) { Ok(x) => ok().p(x), Err(_) => Res::err() },
        "vet_range" => match c.vet_range(n[0]..n[1]) { Ok(x) => ok().p(x), Err(_) => Res::err() },
        "c_split_at" => ei!(a[0], i => { let (x, y) = c.split_at(i); ok().p(x).p(y) }),
        "c_split_after" => { let (x, y) = c.split_after(ni!(a[0])); ok().p(x).p(y) }
        "c_split_around" => er!(a[0], r => { let (x, y) = c.split_around(r); ok().p(x).p(y) }),
        "before" => ei!(a[0], i => ok().p(c.before(i))),
        "after" => ok().p(c.after(ni!(a[0]))),
        "range_of_from" => ei!(a[0], i => ok().p(c.range_of(i..))),
        "range_of_to" => ei!(a[0], i => ok().p(c.range_of(..i))),
        "range_of_full" => ok().p(c.range_of::<Unknown, std::ops::RangeFull>(..)),
        "forward" => { let mut i = ni!(a[0]); let f = c.forward(&mut i); ok().b(f).p(i) }
        "forward_by" => { let mut i = ni!(a[0]); let f = c.forward_by(&mut i, n[0]); ok().b(f).p(i) }
        "backward" => { let mut i = ni!(a[0]); let f = c.backward(&mut i); ok().b(f).p(i) }
        "forward_range_by" => er!(a[0], r => ok().p(c.forward_range_by(r, n[0]))),
        "scan_from" => { let mut v = vec![]; let r = c.scan_from(ni!(a[0]), |e| pred(&mut v, k, e)); ok().p(r).lv(v) }
        "scan_from_rev" => { let mut v = vec![]; let r = c.scan_from_rev(ni!(a[0]), |e| pred(&mut v, k, e)); ok().p(r).lv(v) }
        "scan_range" => er!(a[0], r => { let mut v = vec![]; let (x, y) = c.scan_range(r, |e| pred(&mut v, k, e)); ok().p(x).p(y).lv(v) }),
        "get" => ok().lv(vec![c[ni!(a[0])].id()]),
        "get_r" => er!(a[0], r => ok().l(&c[r])),
        "get_from" => ei!(a[0], i => ok().l(&c[i..])),
        "get_to" => ei!(a[0], i => ok().l(&c[..i])),
        "get_full" => ok().l(&c[..]),
        _ => return exec_part(k),
    })
}

/// Answers from the script; with `n[0] = k > 0` the k-th call panics.
fn pred<'id, E: Elem>(v: &mut Vec<u32>, k: &Call<'id, '_, E>, e: &E) -> bool {
    v.push(e.id());
    // once the answers have run out a scan stops: a broken one must not run on
    if v.len() > k.m.len() + 64 { panic!("runaway") }
    if k.n.get(0) == Some(&v.len()) { panic!("predicate") }
    k.m.get(v.len() - 1).cloned().unwrap_or(false)
}

/// Operations on containers of exclusively held storage.
pub fn exec_mut<'id, A, M, E: Elem>(c: &mut Container<'id, A, M>, k: &Call<'id, '_, E>) -> Option<Res<'id, E>>
    where A: ContiguousMut<Item = E> + GetUncheckedMut
{
    let a = k.a;
    let ok = Res::ok;
    Some(match k.op {
        "set" => { c[ni!(a[0])] = E::mk(k.e[0]); ok() }
        "mut_r" => er!(a[0], r => { let s = &mut c[r]; let x = ok().l(&*s); flip(s); x }),
        "mut_from" => ei!(a[0], i => { let s = &mut c[i..]; let x = ok().l(&*s); flip(s); x }),
        "mut_to" => ei!(a[0], i => { let s = &mut c[..i]; let x = ok().l(&*s); flip(s); x }),
        "swap" => { c.swap(ni!(a[0]), ni!(a[1])); ok() }
        "rotate1_up" => { er!(a[0], r => c.rotate1_up(r)); ok() }
        "rotate1_down" => { er!(a[0], r => c.rotate1_down(r)); ok() }
        "index_twice" => er!(a[0], r => er!(a[1], s => match c.index_twice(r, s) {
            Ok((x, y)) => { let res = ok().l(&*x).l(&*y); flip(x); flip(y); res }
            Err(_) => Res::err(),
        })),
        "zip_mut_raw" => er!(a[0], r => er!(a[1], s => {
            let (mut v, mut w) = (vec![], vec![]);
            c.zip_mut_raw(r, s, |x, y| unsafe { if v.len() > 300_000 { panic!("runaway") } if k.n.get(0) == Some(&(v.len() + 1)) { panic!("closure") } v.push((*x).id()); w.push((*y).id()); std::ptr::swap(x, y) });
            ok().lv(v).lv(w)
        })),
        _ => return None,
    })
}
/// `&mut c[..]` exists only for containers that still admit pointers.
pub fn exec_mut_full<'id, A, E: Elem>(c: &mut Container<'id, A>, k: &Call<'id, '_, E>) -> Option<Res<'id, E>>
    where A: ContiguousMut<Item = E>
{
    if k.op != "mut_full" { return None }
    let s = &mut c[..];
    let x = Res::ok().l(&*s);
    flip(s);
    Some(x)
}

pub fn exec_grow<'id, A, E: Elem>(c: &mut Container<'id, A, OnlyIndex>, k: &Call<'id, '_, E>) -> Option<Res<'id, E>>
    where A: Pushable<Item = E>
{
    Some(match k.op {
        "push" => { let i = c.push(E::mk(k.e[0])); Res::ok().p(i) }
        "insert" => { ei!(k.a[0], i => c.insert(i, E::mk(k.e[0]))); Res::ok() }
        _ => return None,
    })
}

#[cfg(feature = "ptr")]
pub fn exec_ptr<'id, A, E: Elem>(c: &Container<'id, A>, k: &Call<'id, '_, E>) -> Option<Res<'id, E>>
    where A: _Contig<Item = E>
{
    let a = k.a;
    let ok = Res::ok;
    Some(match k.op {
        "pointer_range" => ok().p(c.pointer_range()),
        "pointer_slice" => ok().p(c.pointer_slice()),
        "pr_of_from" => eq_!(a[0], q => ok().p(c.pointer_range_of(q..))),
        "pr_of_to" => eq_!(a[0], q => ok().p(c.pointer_range_of(..q))),
        "pr_of_full" => ok().p(c.pointer_range_of::<Unknown, std::ops::RangeFull>(..)),
        "nonempty_range" => eq_!(a[0], x => eq_!(a[1], y => match c.nonempty_range(x, y) { Ok(r) => ok().p(r), Err(_) => Res::err() })),
        "distance_to" => eq_!(a[0], q => ok().i(c.distance_to(q))),
        "scan_tail" => match a[0] { P::QN(q) => { let mut v = vec![]; let r = c.scan_tail_(q, |e| pred(&mut v, k, e)); ok().p(r).lv(v) } _ => return None },
        "scan_pr" => ep!(a[0], r => { let mut v = vec![]; let (x, y) = c.scan_pointer_range(r, |e| pred(&mut v, k, e)); ok().p(x).p(y).lv(v) }),
        "scan_pr_rev" => ep!(a[0], r => { let mut v = vec![]; let (x, y) = c.scan_pointer_range_rev(r, |e| pred(&mut v, k, e)); ok().p(x).p(y).lv(v) }),
        "split_at_pointer" => eq_!(a[0], q => { let (x, y) = c.split_at_pointer(q); ok().p(x).p(y) }),
        "get_q" => match a[0] { P::QN(q) => ok().lv(vec![c[q].id()]), _ => return None },
        "get_p" => ep!(a[0], r => ok().l(&c[r])),
        "get_qfrom" => eq_!(a[0], q => ok().l(&c[q..])),
        "get_qto" => eq_!(a[0], q => ok().l(&c[..q])),
        // PIndex
        "q_after" => match a[0] { P::QN(q) => ok().p(q.after()), _ => return None },
        "q_no_proof" => eq_!(a[0], q => ok().p(q.no_proof())),
        "q_ptr" => eq_!(a[0], q => ok().b(q.ptr() as usize == q.ptr_mut() as usize).p(q.clone())),
        "q_eq" => match (a[0], a[1]) {
            (P::QN(x), P::QN(y)) => ok().b(x == y).b(x != y),
            (P::QU(x), P::QU(y)) => ok().b(x == y).b(x != y),
            _ => return None,
        },
        // PRange
        "p_len" => ep!(a[0], r => ok().i(r.len())),
        "p_is_empty" => ep!(a[0], r => ok().b(r.is_empty())),
        "p_nonempty" => ep!(a[0], r => match r.nonempty() { Ok(x) => ok().p(x), Err(_) => Res::err() }),
        "p_split_in_half" => ep!(a[0], r => { let (x, y) = r.split_in_half(); ok().p(x).p(y) }),
        "p_first" => ep!(a[0], r => ok().p(r.first())),
        "p_upper_middle" => ep!(a[0], r => ok().p(r.upper_middle())),
        "p_past_the_end" => ep!(a[0], r => ok().p(r.past_the_end())),
        "p_no_proof" => ep!(a[0], r => ok().p(r.no_proof()).p(r.clone())),
        "p_to_slice" => match a[0] { P::PN(r) => ok().p(PSlice::from(r)), P::PU(r) => ok().p(PSlice::from(r)), _ => return None },
        "p_trait" => ep!(a[0], r => ok().p(PointerRange::first(r)).p(PointerRange::end(r)).i(PointerRange::len(r))),
        "p_eq" => ep!(a[0], r => ep!(a[1], s => ok().b(r == s).b(r != s))),
        "p_iter" => ep!(a[0], r => iter_run!(r, k)),
        "p_iter_x" => ep!(a[0], r => iter_x!(r, k)),
        "p_iter_all" => ep!(a[0], r => { let n = ExactSizeIterator::len(&r.into_iter()); iter_all!(r).i(n) }),
        "p_last" => match a[0] { P::PN(r) => ok().p(r.last()), _ => return None },
        "p_tail" => match a[0] { P::PN(r) => ok().p(r.tail()), _ => return None },
        "p_init" => match a[0] { P::PN(r) => ok().p(r.init()), _ => return None },
        "p_advance" => match a[0] { P::PN(mut r) => { let f = r.advance(); ok().b(f).p(r) } _ => return None },
        "p_advance_back" => match a[0] { P::PN(mut r) => { let f = r.advance_back(); ok().b(f).p(r) } _ => return None },
        // PSlice
        "s_len" => es!(a[0], r => ok().i(r.len())),
        "s_is_empty" => es!(a[0], r => ok().b(r.is_empty())),
        "s_nonempty" => es!(a[0], r => match r.nonempty() { Ok(x) => ok().p(x), Err(_) => Res::err() }),
        "s_split_in_half" => es!(a[0], r => { let (x, y) = r.split_in_half(); ok().p(x).p(y) }),
        "s_first" => es!(a[0], r => ok().p(r.first())),
        "s_upper_middle" => es!(a[0], r => ok().p(r.upper_middle())),
        "s_past_the_end" => es!(a[0], r => ok().p(r.past_the_end())),
        "s_no_proof" => es!(a[0], r => ok().p(r.no_proof()).p(r.clone())),
        "s_to_range" => match a[0] { P::SN(r) => ok().p(PRange::from(r)), P::SU(r) => ok().p(PRange::from(r)), _ => return None },
        "s_trait" => es!(a[0], r => ok().p(PointerRange::first(r)).p(PointerRange::end(r)).i(PointerRange::len(r))),
        "s_eq" => es!(a[0], r => es!(a[1], s => ok().b(r == s).b(r != s))),
        "s_last" => match a[0] { P::SN(r) => ok().p(r.last()), _ => return None },
        "s_tail" => match a[0] { P::SN(r) => ok().p(r.tail()), _ => return None },
        "s_init" => match a[0] { P::SN(r) => ok().p(r.init()), _ => return None },
        "s_advance" => match a[0] { P::SN(mut r) => { let f = r.advance(); ok().b(f).p(r) } _ => return None },
        "s_advance_back" => match a[0] { P::SN(mut r) => { let f = r.advance_back(); ok().b(f).p(r) } _ => return None },
        _ => return None,
    })
}

#[cfg(feature = "ptr")]
pub fn exec_ptr_mut<'id, A, E: Elem>(c: &mut Container<'id, A>, k: &Call<'id, '_, E>, b: Base) -> Option<Res<'id, E>>
    where A: ContiguousMut<Item = E>
{
    let a = k.a;
    let ok = Res::ok;
    Some(match k.op {
        "mut_p" => ep!(a[0], r => { let s = &mut c[r]; let x = ok().l(&*s); flip(s); x }),
        "mut_qfrom" => eq_!(a[0], q => { let s = &mut c[q..]; let x = ok().l(&*s); flip(s); x }),
        "mut_qto" => eq_!(a[0], q => { let s = &mut c[..q]; let x = ok().l(&*s); flip(s); x }),
        "rotate1_prange" => match a[0] { P::PN(r) => { c.rotate1_prange(r); ok() } _ => return None },
        "swap_ptr" => match (a[0], a[1]) { (P::QN(x), P::QN(y)) => { c.swap_ptr(x, y); ok() } _ => return None },
        "split_container" => eq_!(a[0], q => c.split_container_at_pointer(q, |mut c1, r1, mut c2, r2| {
            fn raw<'i, 'j, E: Elem, X: ToP<'i, E>>(x: X, b: Base) -> P<'j, E> where X: Copy {
                let p: P<'i, E> = x.top();
                let (lo, hi) = p.bounds(b);
                P::Raw("P", lo, hi, if p.proven() { "N" } else { "U" }, std::marker::PhantomData)
            }
            let mut res = ok().pp(raw(r1, b)).pp(raw(r2, b)).i(c1.len()).i(c2.len())
                .l(&c1[..]).l(&c2[..]).l(&c1[r1]).l(&c2[r2]);
            // both sides are full containers of their own
            let (g1, g2) = (c1.range(), c2.range());
            res = res.l(&c1[g1]).l(&c2[g2]);
            flip(&mut c1[..]);
            flip(&mut c2[..]);
            res
        })),
        _ => return None,
    })
}
