"""Checks of compiler verdicts (Typing.tla): every situation TLC enumerates is
turned into a program; rustc has to agree with the specification's verdict."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from core import *

STORAGE = {"sh": "&'a [T]", "mu": "&'a mut [T]", "rr": "&'a &'a [T]", "rm": "&'a &'a mut [T]", "mr": "&'a mut &'a [T]",
           "mm": "&'a mut &'a mut [T]", "vec": "Vec<T>", "rvec": "&'a Vec<T>", "mvec": "&'a mut Vec<T>",
           "mrvec": "&'a mut &'a Vec<T>", "rmvec": "&'a &'a mut Vec<T>", "mmvec": "&'a mut &'a mut Vec<T>"}
MODE = {"full": "", "only": ", OnlyIndex"}
PROOF = {"N": "NonEmpty", "U": "Unknown"}


def ty(kind, brand, proof):
    p = PROOF[proof]
    return {"I": "Index<%s, %s>", "R": "Range<%s, %s>", "Q": "PIndex<%s, T, %s>", "P": "PRange<%s, T, %s>",
            "S": "PSlice<%s, T, %s>"}[kind] % (brand, p)


# operation -> expression; a tuple of the results the signature names, if any
X = {
    "len": "c.len()", "only_index": "c.only_index()", "clone": "c.clone()", "make_twin": "c.make_twin(tw)",
    "empty_range": "(c.empty_range(),)", "range": "(c.range(),)", "vet": "(c.vet(n).unwrap(),)", "vet_range": "(c.vet_range(n..n).unwrap(),)",
    "c_split_at": "c.split_at(a0)", "c_split_after": "c.split_after(a0)", "c_split_around": "c.split_around(a0)",
    "before": "(c.before(a0),)", "c_after": "(c.after(a0),)", "range_of_from": "(c.range_of(a0..),)", "range_of_to": "(c.range_of(..a0),)",
    "forward": "c.forward(&mut a0)", "forward_by": "c.forward_by(&mut a0, n)", "backward": "c.backward(&mut a0)",
    "forward_range_by": "(c.forward_range_by(a0, n),)",
    "scan_from": "(c.scan_from(a0, |_| true),)", "scan_from_rev": "(c.scan_from_rev(a0, |_| true),)", "scan_range": "c.scan_range(a0, |_| true)",
    "swap": "c.swap(a0, a1)", "rotate1_up": "c.rotate1_up(a0)", "rotate1_down": "c.rotate1_down(a0)",
    "zip_mut_raw": "c.zip_mut_raw(a0, a1, |_, _| ())", "index_twice": "c.index_twice(a0, a1)",
    "push": "(c.push(x),)", "insert": "c.insert(a0, x)",
    "get": "&c[a0]", "get_r": "&c[a0]", "get_from": "&c[a0..]", "get_to": "&c[..a0]", "get_full": "&c[..]",
    "mut_i": "&mut c[a0]", "mut_r": "&mut c[a0]", "mut_from": "&mut c[a0..]", "mut_to": "&mut c[..a0]", "mut_full": "&mut c[..]",
    
    "pointer_range": "(c.pointer_range(),)", "pointer_slice": "(c.pointer_slice(),)", "pr_of_from": "(c.pointer_range_of(a0..),)",
    "pr_of_to": "(c.pointer_range_of(..a0),)", "nonempty_range": "(c.nonempty_range(a0, a1).unwrap(),)", "distance_to": "c.distance_to(a0)",
    "scan_tail": "(c.scan_tail_(a0, |_| true),)", "scan_pr": "c.scan_pointer_range(a0, |_| true)",
    "scan_pr_rev": "c.scan_pointer_range_rev(a0, |_| true)", "split_at_pointer": "c.split_at_pointer(a0)",
    "split_container": "c.split_container_at_pointer(a0, |_, _, _, _| ())", "rotate1_prange": "c.rotate1_prange(a0)",
    "swap_ptr": "c.swap_ptr(a0, a1)", "get_q": "&c[a0]", "get_p": "&c[a0]", "get_qfrom": "&c[a0..]", "get_qto": "&c[..a0]",
    "mut_p": "&mut c[a0]", "mut_qfrom": "&mut c[a0..]", "mut_qto": "&mut c[..a0]",
    "zip_p": "zip(a0, &c, d.pointer_range(), &d, |_: &T, _: &T| ())", "zip_s": "zip(a0, &c, d.pointer_range(), &d, |_: &T, _: &T| ())",
    "zip_p2": "zip(d.pointer_slice(), &d, a0, &c, |_: &T, _: &T| ())", "zip_mut_p": "zip(a0, &mut c, d.pointer_range(), &d, |_: &mut T, _: &T| ())",
    "I_integer": "a0.integer()", "I_after": "(a0.after(),)", "I_no_proof": "(a0.no_proof(),)", "I_copy": "(a0, a0)", "I_eq": "(a0 == a1, a0 != a1)",
    "I_lt": "(a0 < a1, a0 >= a1)", "I_partial_cmp": "PartialOrd::partial_cmp(&a0, &a1)", "I_cmp": "Ord::cmp(&a0, &a1)", "I_hash": "hashed(&a0)",
    "R_start_end": "(a0.start(), a0.end())", "R_as_range": "a0.as_range()",
    "R_split_at": "{ let (x, y, _) = a0.split_at(n); (x, y) }", "R_contains": "(a0.contains(n).unwrap(),)",
    "R_subdivide": "(a0.subdivide(n).next().unwrap(),)", "R_join": "(a0.join(a1).unwrap(),)", "R_join_cover": "(a0.join_cover(a1),)",
    "R_join_cover_both": "(a0.join_cover_both(a1),)", "R_frontiers": "a0.frontiers()", "R_forward_by": "a0.forward_by(&mut a1, n)",
    "R_forward_range_by": "(a0.forward_range_by(a1, n),)", "R_lower_middle": "(a0.lower_middle(),)", "R_advance_": "(a0.advance_().unwrap(),)",
    "R_advance_by": "a0.advance_by(n)", "R_iter": "{ let mut i = a0.into_iter(); (i.next().unwrap(), i.into_range()) }",
    "R_iter_back": "(a0.into_iter().next_back().unwrap(),)", "R_lt": "(a0 < a1, a0 >= a1)", "R_cmp": "Ord::cmp(&a0, &a1)", "R_hash": "hashed(&a0)",
    "Q_ptr": "a0.ptr()", "Q_after": "(a0.after(),)", "Q_no_proof": "(a0.no_proof(),)", "Q_copy": "(a0, a0)", "Q_eq": "(a0 == a1, a0 != a1)",
    "P_iter": "{ let mut i = a0.into_iter(); (i.next().unwrap(), i.into_range()) }", "P_iter_back": "(a0.into_iter().next_back().unwrap(),)",
    "P_to_slice": "(PSlice::from(a0),)", "S_to_range": "(PRange::from(a0),)",
    "P_trait": "(PointerRange::first(a0), PointerRange::end(a0))", "S_trait": "(PointerRange::first(a0), PointerRange::end(a0))",
}
for k in "RPS":
    for o, e in [("len", "a0.len()"), ("is_empty", "a0.is_empty()"), ("nonempty", "(a0.nonempty().unwrap(),)"), ("split_in_half", "a0.split_in_half()"),
                 ("first", "(a0.first(),)"), ("upper_middle", "(a0.upper_middle(),)"), ("past_the_end", "(a0.past_the_end(),)"),
                 ("last", "(a0.last(),)"), ("tail", "(a0.tail(),)"), ("init", "(a0.init(),)"), ("advance", "a0.advance()"),
                 ("advance_back", "a0.advance_back()"), ("no_proof", "(Provable::no_proof(a0),)"), ("copy", "(a0, a0)"), ("eq", "(a0 == a1, a0 != a1)")]:
        X["%s_%s" % (k, o)] = e

HOLD = {
    "elem": "let h = &c[hi];", "slice": "let h = &c[hr];", "tail": "let h = &c[hi..];", "all": "let h = &c[..];",
    "scanned": "let mut h = None; c.scan_from(hi, |e| { h = Some(e); true });", "scannedr": "let mut h = None; c.scan_range(hr, |e| { h = Some(e); true });",
    "view": "let h = &c[hp];",
    "melem": "let h = &mut c[hi];", "mslice": "let h = &mut c[hr];", "mtail": "let h = &mut c[hi..];", "mall": "let h = &mut c[..];",
    "pair": "let h = c.index_twice(hr, hr2).unwrap();", "mview": "let h = &mut c[hp];",
    "moved": "let h = c.only_index();", "index": "let h = c.vet(n).unwrap();", "iter": "let h = c.range().into_iter();",
    "subs": "let h = c.range().subdivide(n);",
}
TYPES = {"I": "Index<%s>", "R": "Range<%s>", "Q": "PIndex<%s, T>", "P": "PRange<%s, T>", "S": "PSlice<%s, T>",
         "C": "Container<%s, &'t [T]>", "RI": "RangeIter<%s>", "PI": "PRangeIter<%s, T>", "SD": "Subdivide<%s>"}
MAKE = {"I": "{0}.vet(0).unwrap()", "R": "{0}.range()", "Q": "{0}.pointer_range().nonempty().unwrap().first()", "P": "{0}.pointer_range()",
        "S": "{0}.pointer_slice()", "C": "{0}", "RI": "{0}.range().into_iter()", "PI": "{0}.pointer_range().into_iter()", "SD": "{0}.range().subdivide(1)",
        "usize": "{0}.len()", "copy": "{0}[{0}.vet(0).unwrap()]", "unit": "()"}
USE = {"I": "&{0}[p]", "R": "&{0}[p]", "Q": "&{0}[p]", "P": "&{0}[p]", "S": "zip(p, &{0}, p, &{0}, |_, _| ())"}
FIELD = {"I": "index", "R": "start", "Q": "idx", "P": "start", "S": "start", "C": "arr"}
NEW = {"I": ["Index::new(0)", "Index::unchecked(0)", "Index::assume_any_index(x)"], "R": ["Range::from(0, 9)", "Range::from_any(0, 9)", "Range::from_ne(0, 9)"],
       "Q": ["PIndex::new(q)", "PIndex::inbounds(q)"], "P": ["PRange::new(q, q)"], "S": ["PSlice::new(q, 9)"], "C": ["Container::new(x)"]}

PRELUDE = """#![allow(warnings)]
extern crate indexing;
use indexing::{Container, Index, Range, NonEmpty, Unknown, scope};
use indexing::container::OnlyIndex;
use indexing::container_traits::*;
use indexing::indexing::{RangeIter, Subdivide};
use indexing::proof::Provable;
use indexing::pointer::{PIndex, PRange, PSlice, PRangeIter, PointerRange, ContainerRef, zip};
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
fn use_<X>(_: X) {}
fn hashed<X: Hash>(x: &X) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }
"""

# a complete implementation of each unsafe trait: only the word unsafe is missing
VOUCH = {
    "Trustworthy": "Trustworthy for W { type Item = u8; fn base_len(&self) -> usize { 9 } }",
    "Contiguous": "Contiguous for W { fn begin(&self) -> *const u8 { 8 as *const u8 } fn end(&self) -> *const u8 { 9 as *const u8 } fn as_slice(&self) -> &[u8] { &[] } }",
    "ContiguousMut": "ContiguousMut for W { fn begin_mut(&mut self) -> *mut u8 { 8 as *mut u8 } fn end_mut(&mut self) -> *mut u8 { 9 as *mut u8 } fn as_mut_slice(&mut self) -> &mut [u8] { &mut [] } }",
    "GetUnchecked": "GetUnchecked for W { unsafe fn xget_unchecked(&self, i: usize) -> &u8 { &0 } }",
    "GetUncheckedMut": "GetUncheckedMut for W { unsafe fn xget_unchecked_mut(&mut self, i: usize) -> &mut u8 { loop {} } }",
    "FixedLength": "FixedLength for W { }",
    "Pushable": "Pushable for W { fn push(&mut self, x: u8) -> usize { 9 } unsafe fn insert_unchecked(&mut self, i: usize, x: u8) { } }",
    "OnePointRange": "OnePointRange<usize> for W { }",
    "PointerRange": "PointerRange<'id> for PW<'id> { type Item = u8; fn first(self) -> PIndex<'id, u8, Unknown> { self.0 } fn end(self) -> PIndex<'id, u8, Unknown> { self.0 } fn len(self) -> usize { 9 } }",
    "ContainerRef": "ContainerRef<'id> for PW<'id> { type Item = u8; type Ref = &'static u8; unsafe fn dereference(p: *const u8) -> &'static u8 { &0 } }",
}
# what an implementation needs of the other traits (done properly)
VOUCH_BASE = {"Contiguous": ["Trustworthy"], "ContiguousMut": ["Trustworthy", "Contiguous"], "GetUnchecked": ["Trustworthy"],
              "GetUncheckedMut": ["Trustworthy", "GetUnchecked"], "FixedLength": ["Trustworthy"], "Pushable": ["Trustworthy"]}
CALLS = {"xget_unchecked": "GetUnchecked::xget_unchecked(s, 9)", "xget_unchecked_mut": "GetUncheckedMut::xget_unchecked_mut(m, 9)",
         "insert_unchecked": "Pushable::insert_unchecked(v, 9, x)", "dereference": "<&Container<'id, &[T]> as ContainerRef<'id>>::dereference(q)"}
BACK = {"array": "c.array()", "array_mut": "c.array_mut()", "arr": "&c.arr", "deref": "&*c", "as_mut": "AsMut::<Vec<T>>::as_mut(&mut c)",
        "as_ref": "AsRef::<Vec<T>>::as_ref(&c)", "into": "{ let v: Vec<T> = c.into(); v }", "borrow_mut": "std::borrow::BorrowMut::<Vec<T>>::borrow_mut(&mut c)",
        "index_usize": "unsafe { &c[9usize] }", "index_raw_range": "c.range_of(9usize..)"}
TWO = {"from": "i..", "to": "..i", "both": "i..j", "inclusive": "i..=j", "toinclusive": "..=i",
       "pfrom": "q..", "pto": "..q", "pboth": "q..r", "pinclusive": "q..=r"}


def companion(c, name):
    """The same program with what is missing: the verdict means something only if rustc accepts it."""
    if c["kind"] == "vouch":
        return vouch(c["what"], name, "unsafe ")
    if c["kind"] == "call":
        return program(dict(c, wrap="unsafe "), name)


def vouch(t, name, word):
    w = "impl<'id> " if t in ("PointerRange", "ContainerRef") else "impl "
    b = "mod %s { use super::*; pub struct W; " % name
    if w != "impl ":
        b += "#[derive(Copy, Clone)] pub struct PW<'id>(PIndex<'id, u8, Unknown>); "
    if t == "OnePointRange":
        b += "impl IndexRange<usize> for W { } "
    for u in VOUCH_BASE.get(t, []):
        b += "unsafe impl %s " % VOUCH[u]
    return b + word + w + VOUCH[t] + " }"


def program(c, name):
    k = c["kind"]
    if k == "vouch":
        return vouch(c["what"], name, "")
    if k == "call":
        return ("fn %s<'id, T>(s: &[T], m: &mut [T], v: &mut Vec<T>, x: T, q: *const T) { let r = %s{ %s }; use_(r); }"
                % (name, c.get("wrap", ""), CALLS[c["what"]]))
    if k == "claim":
        u, n = ty(c["pk"], "'id", "U"), ty(c["pk"], "'id", "N")
        a, b, e = {"coerce": (u, n, "x"), "into": (u, n, "x.into()"), "ref": ("&'a " + u, "&'a " + n, "x"), "mutref": ("&'a mut " + u, "&'a mut " + n, "x"),
                   "array": ("[%s; 1]" % u, "[%s; 1]" % n, "x"), "clone": (u, n, "x.clone()"), "dyn": (u, n, "*(Box::new(x) as Box<%s>)" % n),
                   "test": (u, n, "x.nonempty().unwrap()")}[c["how"]]
        return "fn %s<'id, 'a, T: 'a>(x: %s) -> %s { %s }" % (name, a, b, e)
    if k == "backdoor":
        return "fn %s<'id, T>(mut c: Container<'id, Vec<T>, OnlyIndex>) { let r = %s; use_(r); }" % (name, BACK[c["what"]])
    if k == "twopoint":
        return ("fn %s<'id, T>(c: Container<'id, &[T]>, i: Index<'id>, j: Index<'id>, q: PIndex<'id, T>, r: PIndex<'id, T>) { let x = c.%s(%s); use_(x); }"
                % (name, "pointer_range_of" if c["what"][0] == "p" else "range_of", TWO[c["what"]]))
    if k in ("plain", "result", "twin", "brand", "hold"):
        s = c["sit"]
        par = ["mut c: Container<'id, %s%s>" % (STORAGE[s["st"]], MODE[s["mode"]]), "d: Container<'dd, &'a [T]>", "n: usize", "x: T",
               "hi: Index<'id>", "hr: Range<'id>", "hr2: Range<'id>", "hp: PRange<'id, T>"]
        for j, (kind, _) in enumerate(c["args"]):
            if kind == "A":
                par.append("tw: %s" % STORAGE[s["twin"]])
            else:
                par.append("mut a%d: %s" % (j, ty(kind, "'jd" if s["brands"][j] else "'id", s["proofs"][j])))
        body = ""
        if k == "hold":
            body += HOLD[s["how"]] + " "
        ann = ""
        if s["ann"]:
            ann = ": (%s,)" % ", ".join(ty(r[0], "'id", p) for r, p in zip(c["res"], s["ann"]))
        body += "let r%s = %s; " % (ann, X[c["op"]])
        # the result is done with before what was held is used again
        if k == "hold":
            body += "use_(h); "
        return "fn %s<'id, 'jd, 'dd, 'a, T: 'a>(%s) { %s}" % (name, ", ".join(par), body)
    if k == "mixed":
        return ("fn %s<T>(s0: &[T], s1: &[T], s2: &mut [T], s3: &[T]) { scope(s0, |outer| { let dup = outer.clone(); let twin = outer.make_twin(s3).unwrap(); "
                "scope(s1, |nested| scope(s2, |mut big| { let q = big.pointer_range().past_the_end(); "
                "big.split_container_at_pointer(q, |left, _, right, _| { let p = %s; use_(%s); }) })) }) }"
                % (name, MAKE[c["pk"]].format(c["made"]), USE[c["pk"]].format(c["used"])))
    if k == "escape":
        m = MAKE[c["pk"]].format("c")
        b = {"return": "let x = scope(s, |c| %s); use_(x);" % m,
             "assign": "let mut o = None; scope(s, |c| { o = Some(%s); }); use_(o);" % m,
             "boxed": "let x = scope(s, |c| Box::new(%s)); use_(x);" % m,
             "closure": "let f = scope(s, |c| { let m = %s; move || { let m = m; use_(m) } }); f();" % m,
             "split": "scope(z, |mut big| { let q = big.pointer_range().past_the_end(); let x = big.split_container_at_pointer(q, |c, _, _, _| %s); use_(x); });" % m}[c["how"]]
        return "fn %s<T: Copy>(s: &[T], z: &mut [T]) { %s }" % (name, b)
    if k == "variance":
        t = TYPES[c["pk"]]
        a, b = {"shrink": ("'b", "'a"), "grow": ("'a", "'b"), "static": ("'static", "'a"), "same": ("'a", "'a"), "shrinkref": ("'b", "'a"), "unrelated": ("'a", "'c")}[c["how"]]
        r = "&'a " if c["how"] == "shrinkref" else ""
        return "fn %s<'a, 'b: 'a, 'c, 't: 'b, T: 't>(x: %s%s) -> %s%s { x }" % (name, r, t % a, r, t % b)
    if k == "forge":
        t = (TYPES[c["pk"]] % "'id")
        f = FIELD[c["pk"]]
        sig = "fn %s<'id, 'a, 't, T: 't>(mut x: %s, q: *const T, arr: &'t [T])" % (name, t)
        if c["how"] == "literal":
            g = {"I": "index: 9", "R": "start: 0, end: 9", "Q": "idx: q", "P": "start: q, end: q", "S": "start: q, len: 9", "C": "arr: arr, mode: PhantomData"}[c["pk"]]
            pr = "" if c["pk"] == "C" else ", proof: PhantomData"
            return "%s { let y: %s = %s { id: x.id, %s%s }; }" % (sig, t, t.split("<")[0], g, pr)
        if c["how"] == "field":
            v = {"index": "9", "idx": "q", "arr": "arr"}.get(f, "9" if c["pk"] == "R" else "q")
            return "%s { x.%s = %s; }" % (sig, f, v)
        if c["how"] == "new":
            return "%s { let y: %s = unsafe { %s }; }" % (sig, t, NEW[c["pk"]][0])
        if c["how"] == "default":
            return "%s { let y: %s = Default::default(); }" % (sig, t)
        v = {"I": "9usize", "R": "0usize..9usize", "Q": "q", "P": "(q, q)", "S": "(q, 9usize)", "C": "arr"}[c["pk"]]
        return "%s { let y: %s = (%s).into(); }" % (sig, t, v)
    raise ToolError("case kind %s" % k)


def library(work):
    """Metadata of /repo's current tree, with the pointer feature."""
    td = os.path.join(BUILD, "target-typing")
    touch_key(["typing"])
    p = subprocess.run(["cargo", "build", "--offline", "--lib", "--features", "use_std,experimental_pointer_ranges", "--target-dir", td,
                        "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--message-format=json"],
                       cwd=os.path.join(ROOT, "harness"), env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    if p.returncode != 0:
        raise ToolError("the crate does not build: %s" % p.stderr.decode()[-2000:])
    for l in p.stdout.decode().splitlines():
        d = json.loads(l)
        if d.get("reason") == "compiler-artifact" and d["target"]["name"] == "indexing":
            for f in d["filenames"]:
                if f.endswith(".rlib"):
                    return f
    raise ToolError("no library artifact")


def compile_batch(work, lib, tag, progs):
    """Names of the programs rustc rejects, with the first message."""
    left, bad, rounds = list(progs), {}, 0
    while left:
        rounds += 1
        if rounds > 12:
            raise ToolError("rustc rejects ever new programs")
        f = os.path.join(work, "types-%s.rs" % tag)
        base = PRELUDE.count("\n")
        open(f, "w").write(PRELUDE + "\n".join(t for _, t in left) + "\n")
        p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "t" + tag, "--emit=metadata", "--error-format=json",
                            "-o", f + ".rmeta", "--extern", "indexing=" + lib, "-L", os.path.join(os.path.dirname(lib), "deps"), f],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=clean_env(), timeout=600)
        if p.returncode == 0:
            break
        hit = {}
        for l in p.stderr.decode().splitlines():
            if not l.startswith("{"):
                continue
            d = json.loads(l)
            if d.get("level") != "error" or not d.get("spans"):
                continue
            code = (d.get("code") or {}).get("code") or ""
            for s in d["spans"]:
                k = s["line_start"] - base - 1
                if s["is_primary"] and s["file_name"] == f:
                    if not 0 <= k < len(left):
                        raise ToolError("error outside the programs: %s" % d["message"])
                    hit.setdefault(left[k][0], "%s %s" % (code, d["message"]))
        if not hit:
            raise ToolError("rustc failed without naming a program:\n%s" % p.stderr.decode()[-3000:])
        bad.update(hit)
        left = [x for x in left if x[0] not in hit]
    return bad


# the rules of Brands.tla that each property is about
RULES = {"C11": ["brand", "fresh", "escape", "invariant", "twinlen"], "C12": ["proof", "mode", "need", "borrow", "result", "twinfixed"]}


def brands(prop, work):
    """The rules keep every access safe, and none of them can be dropped."""
    def one(off):
        foc = os.path.join(work, "brands-%s.json" % (off or "all"))
        big = THOROUGH and not off
        json.dump({"off": [off] if off else [], "len": 3 if big else 2, "boxes": 3 if big else 2, "vals": 2, "steps": 6}, open(foc, "w"))
        r = tlc(work, "brands-" + (off or "all"), "MC_Brands.tla", "MC_Brands.cfg", env={"FOCUS": foc}, workers=2 if off else 4, mem="10g" if big else "4g",
                gc="-XX:+UseParallelGC")
        if r.rc != (12 if off else 0) or (off and "Invariant Safe is violated" not in r.out):
            raise ToolError("Brands without %s: rc %d\n%s" % (off or "nothing", r.rc, r.out[-2000:]))
        return {"module": "Brands", "rule_dropped": off, "counterexample": bool(off), "distinct_states": r.distinct,
                "states_generated": r.states, "wall_s": round(r.wall, 1)}
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(one, [None] + RULES[prop]))


def run_types(prop, work):
    foc = os.path.join(work, "focus.json")
    json.dump({"prop": prop}, open(foc, "w"))
    out = os.path.join(work, "types.ndjson")
    r = model_check(work, "types", "TypingCases.tla", "TypingCases.cfg", env={"FOCUS": foc, "OUT": out}, workers=4, mem="6g")
    cases = [json.loads(l) for l in open(out)]
    models = brands(prop, work)
    lib = library(work)
    progs = [("p%05d" % k, program(c, "p%05d" % k)) for k, c in enumerate(cases)]
    # programs with the same verdict next to each other, spread over the processors
    n = 2 * CPUS
    groups = [progs[k::n] for k in range(n)]
    bad = {}
    with ThreadPoolExecutor(CPUS) as ex:
        for b in ex.map(lambda k: compile_batch(work, lib, "%02d" % k, groups[k]), range(n)):
            bad.update(b)
    comp = [(name + "u", companion(c, name + "u")) for (name, _), c in zip(progs, cases) if c["kind"] in ("vouch", "call")]
    idle = compile_batch(work, lib, "u", comp) if comp else {}
    wrong = []
    kinds = {}
    for (name, text), c in zip(progs, cases):
        q = kinds.setdefault(c["kind"], [0, 0])
        q[0 if c["ok"] else 1] += 1
        if name + "u" in idle:
            q = kinds.setdefault("not judged", [0, 0])
            q[1] += 1
            continue
        if c["ok"] == (name in bad):
            wrong.append({"case": c, "program": PRELUDE + text, "rustc": bad.get(name, "accepted"), "expected": "accept" if c["ok"] else "reject"})
    cov = {
        "states": r.distinct + sum(m["distinct_states"] for m in models), "transitions": r.states + sum(m["states_generated"] for m in models),
        "traces_validated_against_impl": len(cases) if not wrong else 0,
        "models": [{"module": "TypingCases", "distinct_states": r.distinct, "states_generated": r.states, "wall_s": round(r.wall, 1)}] + models,
        "programs_judged": {k: {"accept": v[0], "reject": v[1]} for k, v in sorted(kinds.items())},
        "samples": [{"program": progs[k][1], "verdict": "accept" if cases[k]["ok"] else "reject", "rustc": bad.get(progs[k][0], "accepted")}
                    for k in range(0, len(progs), max(1, len(progs) // 5))][:5],
    }
    if wrong:
        w = wrong[0]
        p = write_replay(prop, w["case"], [w["program"]], "rustc", {"expected": w["expected"], "rustc": w["rustc"], "others": len(wrong) - 1,
                                                                   "all": [(x["case"], x["rustc"]) for x in wrong[:60]]})
        return cov, "program has to be %sed but is %s: %s" % (w["expected"], w["rustc"], w["program"].splitlines()[-1][:500]), p
    return cov, None, None
