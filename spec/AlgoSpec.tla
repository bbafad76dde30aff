------------------------------- MODULE AlgoSpec -------------------------------
(***************************************************************************)
(* Contracts of the algorithms.  A call is judged on an event              *)
(*   op   algorithm            pol  how user code behaves:                 *)
(*        "h" honest total order, "p" panics at comparison k, otherwise    *)
(*        (a, L, E, G) it lies                                             *)
(*   x, y keys of the two slices; element j of x has identity j, of y      *)
(*        identity Len(x)+j      n  numbers                                *)
(*   s    how it ended         o, o2  identities in the slices afterwards  *)
(*   r    returned number      q  closure calls (zip)                      *)
(*   c    comparisons, lg = ceil(log2(Len(x)+1))                           *)
(*   g    <<each element dropped once, guards intact, only real elements   *)
(*        were handed to user code>>                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Sorts == {"qs_range", "qs_prange", "qs_bounds", "is_idx", "is_rng", "is_plower", "is_pidx", "is_rust"}
Stable == {"is_idx", "is_rng", "is_pidx", "is_rust"}
Twin == {"is2"}
Merges == {"merge_idx", "merge_rng"}
Lowers == {"lb", "lb_raw", "lb_prange", "lb_pslice", "lb_prange_", "lb_pslice_"}
Binaries == {"bs", "bs_by", "bs_prange", "bs_pslice", "bs_prange_", "bs_pslice_"}
Ranged == {"lb_prange_", "lb_pslice_", "bs_prange_", "bs_pslice_"}
Zips == {"zip_rr", "zip_rm", "zip_mr", "zip_mm"}
Copies == {"copy", "copy_prange"}
Dots == {"dot", "dot_prange"}
Algos == Sorts \union Twin \union Merges \union Lowers \union Binaries \union Zips \union Copies \union Dots \union {"heapify"}

MIN(a, b) == IF a < b THEN a ELSE b
SetOf(s) == { s[k] : k \in 1..Len(s) }
Ident(n) == [j \in 1..n |-> j]
IdentY(ev) == [j \in 1..Len(ev.y) |-> Len(ev.x) + j]
KeyOf(ev, id) == IF id <= Len(ev.x) THEN ev.x[id] ELSE ev.y[id - Len(ev.x)]
Keys(ev, s) == [j \in 1..Len(s) |-> KeyOf(ev, s[j])]

\* s has exactly the identities of S, each once
IsPerm(s, S) == Len(s) = Cardinality(S) /\ SetOf(s) = S
Sorted(k) == \A j \in 1..(Len(k) - 1) : k[j] <= k[j + 1]
\* a list of identities in which equal keys keep their original order
StableSorted(ev, s) ==
  /\ \A j \in 1..(Len(s) - 1) : LET a == KeyOf(ev, s[j])  b == KeyOf(ev, s[j + 1]) IN a < b \/ (a = b /\ s[j] < s[j + 1])

Unchanged(ev) == ev.o = Ident(Len(ev.x)) /\ ev.o2 = IdentY(ev)

(* ---- conservation: C18 ---- *)
Conserved(ev) ==
  LET zst == ev.t = "zst" IN
  /\ Len(ev.o) = Len(ev.x) /\ Len(ev.o2) = Len(ev.y)
  /\ ev.g = <<TRUE, TRUE, TRUE>>
  /\ ~zst =>
     IF ev.op \in Merges THEN IsPerm(ev.o \o ev.o2, 1..(Len(ev.x) + Len(ev.y)))
     ELSE IF ev.op = "zip_mm" THEN IsPerm(ev.o \o ev.o2, 1..(Len(ev.x) + Len(ev.y)))
     ELSE IF ev.op \in Zips \union Copies \union Dots THEN TRUE
     ELSE IsPerm(ev.o, 1..Len(ev.x)) /\ IsPerm(ev.o2, SetOf(IdentY(ev)))

(* ---- sorting: C16, C17 ---- *)
SortOk(ev) == ev.s = "ok" /\ Conserved(ev) /\ (ev.t # "zst" => Sorted(Keys(ev, ev.o)))
StableOk(ev) == SortOk(ev) /\ (ev.t # "zst" => StableSorted(ev, ev.o))
TwinOk(ev) ==
  IF Len(ev.x) # Len(ev.y) THEN ev.s = "panic" /\ (ev.t # "zst" => Unchanged(ev)) /\ Conserved(ev)
  ELSE /\ StableOk(ev)
       /\ ev.t # "zst" => \A j \in 1..Len(ev.o) : ev.o2[j] = Len(ev.x) + ev.o[j]

(* ---- merging: C20 ---- *)
LeftEnd(ev) == ev.n[1]
MergeErr(ev) == LeftEnd(ev) > Len(ev.x) \/ LeftEnd(ev) > Len(ev.y)
HalvesSorted(ev) == Sorted(SubSeq(ev.x, 1, LeftEnd(ev))) /\ Sorted(SubSeq(ev.x, LeftEnd(ev) + 1, Len(ev.x)))
MergeOk(ev) ==
  /\ Conserved(ev)
  /\ IF MergeErr(ev) THEN ev.s = "err" /\ (ev.t # "zst" => Unchanged(ev))
     ELSE /\ ev.s = "ok"
          /\ HalvesSorted(ev) /\ ev.t # "zst" =>
               /\ StableSorted(ev, ev.o)                       \* a stable merge is the stable sort
               /\ SetOf(ev.o2) = SetOf(IdentY(ev))             \* the buffer has its own elements back

(* ---- searching: C19 ---- *)
RLo(ev) == ev.n[1]
RHi(ev) == ev.n[2]
Goal(ev) == ev.n[3]
FewComparisons(ev) == ev.c <= ev.lg + 3
Below(ev) == Cardinality({ j \in (RLo(ev) + 1)..RHi(ev) : ev.x[j] < Goal(ev) })
LowerOk(ev) ==
  /\ Conserved(ev) /\ FewComparisons(ev) /\ (ev.t # "zst" => Unchanged(ev))
  /\ ev.s = "ok" /\ ev.r = <<RLo(ev) + Below(ev)>>
BinaryOk(ev) ==
  /\ Conserved(ev) /\ FewComparisons(ev) /\ (ev.t # "zst" => Unchanged(ev))
  /\ \/ /\ ev.s = "found" /\ RLo(ev) <= ev.r[1] /\ ev.r[1] < RHi(ev) /\ ev.x[ev.r[1] + 1] = Goal(ev)
     \/ /\ ev.s = "absent" /\ (\A j \in (RLo(ev) + 1)..RHi(ev) : ev.x[j] # Goal(ev)) /\ ev.r[1] = RLo(ev) + Below(ev)
\* any answers at all: still inside, still logarithmic
SearchSafe(ev) ==
  /\ Conserved(ev) /\ FewComparisons(ev) /\ (ev.t # "zst" => Unchanged(ev))
  /\ IF ev.pol = "p" THEN ev.s = "panic" \/ ev.c < ev.k
     ELSE /\ ev.s \in {"ok", "found", "absent"}
          /\ RLo(ev) <= ev.r[1] /\ ev.r[1] <= RHi(ev)
          /\ ev.s = "found" => ev.r[1] < RHi(ev)

(* ---- heap: C21 ---- *)
HeapOk(ev) == ev.s = "ok" /\ Conserved(ev) /\ (ev.t # "zst" => LET k == Keys(ev, ev.o) IN \A j \in 2..Len(k) : k[j \div 2] <= k[j])

(* ---- lock step: C22 ---- *)
ZipLen(ev) == MIN(ev.n[2] - ev.n[1], ev.n[4] - ev.n[3])
ZipPairs(ev, k) == [j \in 1..(2 * k) |-> IF j % 2 = 1 THEN ev.n[1] + ((j + 1) \div 2) ELSE Len(ev.x) + ev.n[3] + (j \div 2)]
\* what the closures used by the harness do to k pairs
Chain(s, lo, k) == [j \in 1..Len(s) |-> IF j = lo + 1 /\ k > 0 THEN 60001 ELSE IF j > lo /\ j <= lo + k THEN s[j - 1] ELSE s[j]]
Over(s, lo, k, t, lo2) == [j \in 1..Len(s) |-> IF j > lo /\ j <= lo + k THEN t[lo2 + j - lo] ELSE s[j]]
ZipOk(ev) ==
  LET full == ZipLen(ev)
      pan == ev.pol = "p" /\ ev.k >= 1 /\ ev.k <= full
      k == IF pan THEN ev.k - 1 ELSE full
      xs == Ident(Len(ev.x))  ys == IdentY(ev) IN
  /\ ev.g = <<TRUE, TRUE, TRUE>>
  /\ IF pan THEN ev.s = "panic" ELSE ev.s = "ok" /\ ev.q = ZipPairs(ev, full)
  /\ ev.o = IF ev.op = "zip_mr" THEN Chain(xs, ev.n[1], k) ELSE IF ev.op = "zip_mm" THEN Over(xs, ev.n[1], k, ys, ev.n[3]) ELSE xs
  /\ ev.o2 = IF ev.op = "zip_rm" THEN Chain(ys, ev.n[3], k) ELSE IF ev.op = "zip_mm" THEN Over(ys, ev.n[3], k, xs, ev.n[1]) ELSE ys
CopyOk(ev) ==
  LET k == MIN(Len(ev.x), Len(ev.y)) IN
  /\ ev.s = "ok" /\ ev.g[2]
  /\ ev.o = Ident(Len(ev.x))
  /\ ev.o2 = [j \in 1..Len(ev.y) |-> IF j <= k THEN j ELSE Len(ev.x) + j]
DotSum(a, b, k) == FoldLeft(LAMBDA s, t : s + t, 0, [j \in 1..k |-> a[j] * b[j]])
DotOk(ev) == ev.s = "ok" /\ ev.r = <<DotSum(ev.x, ev.y, MIN(Len(ev.x), Len(ev.y))) + 536870912>>

(* ---- one property at a time ---- *)
C16ok(ev) == ev.op \in Sorts /\ ev.pol = "h" => SortOk(ev)
C17ok(ev) == /\ ev.op \in Stable /\ ev.pol = "h" => StableOk(ev)
             /\ ev.op = "is2" /\ ev.pol = "h" => TwinOk(ev)
C18ok(ev) == ev.op \in Algos => Conserved(ev)
C19ok(ev) == /\ ev.op \in Lowers /\ ev.pol = "h" => LowerOk(ev)
             /\ ev.op \in Binaries /\ ev.pol = "h" => BinaryOk(ev)
             /\ ev.op \in Lowers \union Binaries /\ ev.pol # "h" => SearchSafe(ev)
C20ok(ev) == ev.op \in Merges => IF ev.pol = "h" THEN MergeOk(ev) ELSE Conserved(ev)
C21ok(ev) == ev.op = "heapify" /\ ev.pol = "h" => HeapOk(ev)
C22ok(ev) == /\ ev.op \in Zips => ZipOk(ev)
             /\ ev.op \in Copies => CopyOk(ev)
             /\ ev.op \in Dots => DotOk(ev)
Holds(prop, ev) ==
  CASE prop = "C16" -> C16ok(ev) [] prop = "C17" -> C17ok(ev) [] prop = "C18" -> C18ok(ev) [] prop = "C19" -> C19ok(ev)
    [] prop = "C20" -> C20ok(ev) [] prop = "C21" -> C21ok(ev) [] prop = "C22" -> C22ok(ev)
=============================================================================
