------------------------------- MODULE WideOps -------------------------------
(***************************************************************************)
(* The operations of Ops.tla over the whole range of machine integers.     *)
(*                                                                         *)
(* TLC's integers end at 2^31, so a number is a triple of limbs            *)
(* <<hi, mid, lo>> in base Base (2^22 for the real machine: 64 bits), and  *)
(* the meaning of the operations is written out on such numbers.  Contents *)
(* do not appear (no storage of that length has any: its elements have no  *)
(* size): an access yields the length of what it sees.  WideLink.tla has   *)
(* TLC compare this module with Ops.tla, call by call, for small bases.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Base,     \* of a limb
          WMax      \* the largest machine integer

Num(k) == <<0, 0, k>>                     \* k < Base
Zero == Num(0)
One == Num(1)
Lt(a, b) == \/ a[1] < b[1]
            \/ (a[1] = b[1] /\ a[2] < b[2])
            \/ (a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3])
Le(a, b) == a = b \/ Lt(a, b)
Add(a, b) ==
  LET z == a[3] + b[3]  y == a[2] + b[2] + z \div Base IN
  <<a[1] + b[1] + y \div Base, y % Base, z % Base>>
\* for b <= a
Minus(a, b) ==
  LET z == a[3] - b[3]  y == a[2] - b[2] - (IF z < 0 THEN 1 ELSE 0) IN
  <<a[1] - b[1] - (IF y < 0 THEN 1 ELSE 0), y % Base, z % Base>>
HalfOf(a) ==
  LET y == (a[1] % 2) * Base + a[2]  z == (y % 2) * Base + a[3] IN
  <<a[1] \div 2, y \div 2, z \div 2>>
SatAdd(a, b) == LET s == Add(a, b) IN IF Lt(WMax, s) THEN WMax ELSE s
MinW(a, b) == IF Lt(a, b) THEN a ELSE b
MaxW(a, b) == IF Lt(a, b) THEN b ELSE a
Number(a) == Len(a) = 3 /\ \A j \in 1..3 : 0 <= a[j] /\ a[j] < Base

\* positions: <<kind, lo, hi, proof>>, as in Particles.tla
K(x) == x[1]
Lo(x) == x[2]
Hi(x) == x[3]
Pf(x) == x[4]
Ix(i, p) == <<"I", i, i, p>>
Rg(a, b, p) == <<"R", a, b, p>>
Size(x) == Minus(Hi(x), Lo(x))
Some(x) == Lt(Lo(x), Hi(x))
Sum(p, q) == IF p = "N" \/ q = "N" THEN "N" ELSE "U"
Trusted(x, L) ==
  /\ Le(Lo(x), Hi(x)) /\ Le(Hi(x), L)
  /\ Pf(x) = "N" => IF K(x) = "I" THEN Lt(Lo(x), L) ELSE Lt(Lo(x), Hi(x))

\* s: ok/err/none, p: positions, i: numbers, b: booleans, len: length afterwards
Out(s, p, i, b, len) == [s |-> s, p |-> p, i |-> i, b |-> b, len |-> len]

Mid(x) == Add(Lo(x), HalfOf(Size(x)))
CmpW(x, y) == IF Lt(Lo(x), Lo(y)) THEN 0 ELSE IF Lt(Lo(y), Lo(x)) THEN 2
              ELSE IF Lt(Hi(x), Hi(y)) THEN 0 ELSE IF Lt(Hi(y), Hi(x)) THEN 2 ELSE 1
\* how many leading answers are TRUE, at most lim
Taken(m, lim) ==
  FoldLeft(LAMBDA z, b : IF z.on /\ b /\ Lt(z.k, lim) THEN [k |-> Add(z.k, One), on |-> TRUE] ELSE [k |-> z.k, on |-> FALSE],
           [k |-> Zero, on |-> TRUE], m).k

\* an iterator taken through a script (4j: nth(j), 4j+1: nth_back(j), 2: next,
\* 3: next_back): what it yields and what is left
IterW(x, n) ==
  FoldLeft(LAMBDA z, v :
     LET j == v \div 4
         back == v \in {3, 4 * j + 1}
         skip == Num(IF v \in {2, 3} THEN 0 ELSE j)
         hit == Lt(Add(z.lo, skip), z.hi)
         got == IF back THEN Minus(Minus(z.hi, One), skip) ELSE Add(z.lo, skip)
         lo2 == IF ~hit THEN z.hi ELSE IF back THEN z.lo ELSE Add(got, One)
         hi2 == IF hit /\ back THEN got ELSE z.hi
         now == Rg(lo2, hi2, "U") IN
     [lo |-> lo2, hi |-> hi2, p |-> z.p \o <<IF hit THEN Ix(got, "N") ELSE now, now>>, b |-> Append(z.b, hit)],
     [lo |-> Lo(x), hi |-> Hi(x), p |-> <<>>, b |-> <<>>], n)

Exp(op, a, n, m, L) ==
  LET x == a[1]
      y == a[2]
      ok(p) == Out("ok", p, <<>>, <<>>, L)
      num(i) == Out("ok", <<>>, i, <<>>, L)
      bool(b) == Out("ok", <<>>, <<>>, b, L)
      err == Out("err", <<>>, <<>>, <<>>, L)
      moved(ok_, i) == Out("ok", <<IF ok_ THEN i ELSE x>>, <<>>, <<ok_>>, L)
      before(i) == Lt(Zero, i) IN
  CASE op = "i_integer" -> num(<<Lo(x)>>)
    [] op = "i_after" -> ok(<<Ix(Add(Lo(x), One), "U")>>)
    [] op = "i_no_proof" -> ok(<<Ix(Lo(x), "U")>>)
    [] op \in {"i_copy", "r_copy"} -> ok(<<x, x>>)
    [] op \in {"cmp_i", "cmp_r"} ->
         LET o == CmpW(x, y) IN
         Out("ok", <<>>, <<Num(o), IF o = 1 THEN One ELSE Zero, One>>, <<o = 1, o # 1, o = 0, o # 2, o = 2, o # 0>>, L)
    [] op \in {"ord_i", "ord_r"} ->
         LET o == CmpW(x, y) IN
         Out("ok", <<IF o = 0 THEN y ELSE x, IF o = 0 THEN x ELSE y>>, <<Num(o)>>, <<o = 0, o # 2, o = 2, o # 0, o = 1>>, L)
    [] op = "r_len" -> num(<<Size(x)>>)
    [] op = "r_is_empty" -> bool(<<~Some(x)>>)
    [] op = "r_start" -> num(<<Lo(x)>>)
    [] op = "r_end" -> num(<<Hi(x)>>)
    [] op = "r_as_range" -> num(<<Lo(x), Hi(x)>>)
    [] op \in {"nonempty", "into_checked"} -> IF Some(x) THEN ok(<<Rg(Lo(x), Hi(x), "N")>>) ELSE err
    [] op = "split_in_half" -> ok(<<Rg(Lo(x), Mid(x), "U"), Rg(Mid(x), Hi(x), Pf(x))>>)
    [] op = "r_split_at" ->
         LET far == Lt(Size(x), n[1])  mid == IF far THEN Hi(x) ELSE Add(Lo(x), n[1]) IN
         Out("ok", <<Rg(Lo(x), mid, "U"), Rg(mid, Hi(x), "U")>>, <<>>, <<~far>>, L)
    [] op = "contains" -> IF Le(Lo(x), n[1]) /\ Lt(n[1], Hi(x)) THEN ok(<<Ix(n[1], "N")>>) ELSE Out("none", <<>>, <<>>, <<>>, L)
    [] op = "join" -> IF Hi(x) = Lo(y) THEN ok(<<Rg(Lo(x), Hi(y), Sum(Pf(x), Pf(y)))>>) ELSE err
    [] op = "join_cover" -> ok(<<Rg(Lo(x), MaxW(Hi(x), Hi(y)), Pf(x))>>)
    [] op = "join_cover_both" -> ok(<<Rg(MinW(Lo(x), Lo(y)), MaxW(Hi(x), Hi(y)), Sum(Pf(x), Pf(y)))>>)
    [] op = "frontiers" -> ok(<<Rg(Lo(x), Lo(x), "U"), Rg(Hi(x), Hi(x), "U")>>)
    [] op = "r_forward_by" ->
         LET j == SatAdd(Lo(y), n[1])  t == Lt(j, Hi(x)) IN
         Out("ok", <<Ix(IF t THEN j ELSE Lo(y), "N")>>, <<>>, <<t>>, L)
    [] op = "r_forward_range_by" -> ok(<<Rg(MinW(Hi(x), SatAdd(Lo(y), n[1])), MinW(Hi(x), SatAdd(Hi(y), n[1])), "U")>>)
    [] op = "r_no_proof" -> ok(<<Rg(Lo(x), Hi(x), "U"), Rg(Lo(x), Hi(x), "U"), Rg(Lo(x), Hi(x), "U")>>)
    [] op = "first" -> ok(<<Ix(Lo(x), Pf(x))>>)
    [] op = "upper_middle" -> ok(<<Ix(Mid(x), Pf(x))>>)
    [] op = "past_the_end" -> ok(<<Ix(Hi(x), "U")>>)
    [] op = "lower_middle" -> ok(<<Ix(Add(Lo(x), HalfOf(Minus(Size(x), One))), "N")>>)
    [] op = "last" -> ok(<<Ix(Minus(Hi(x), One), "N")>>)
    [] op = "tail" -> ok(<<Rg(Add(Lo(x), One), Hi(x), "U")>>)
    [] op = "init" -> ok(<<Rg(Lo(x), Minus(Hi(x), One), "U")>>)
    [] op = "advance_" -> IF Lt(One, Size(x)) THEN ok(<<Rg(Add(Lo(x), One), Hi(x), "N")>>) ELSE err
    [] op = "advance" -> moved(Lt(One, Size(x)), Rg(Add(Lo(x), One), Hi(x), "N"))
    [] op = "advance_by" -> LET j == SatAdd(Lo(x), n[1]) IN moved(Lt(j, Hi(x)), Rg(j, Hi(x), "N"))
    [] op = "advance_back" -> moved(Lt(One, Size(x)), Rg(Lo(x), Minus(Hi(x), One), "N"))
    [] op = "len" -> num(<<L>>)
    [] op \in {"range", "range_of_full"} -> ok(<<Rg(Zero, L, "U")>>)
    [] op = "empty_range" -> ok(<<Rg(Zero, Zero, "U")>>)
    [] op = "vet" -> IF Lt(n[1], L) THEN ok(<<Ix(n[1], "N")>>) ELSE err
    [] op = "vet_range" -> IF Le(n[1], n[2]) /\ Le(n[2], L) THEN ok(<<Rg(n[1], n[2], "U")>>) ELSE err
    [] op = "c_split_at" -> ok(<<Rg(Zero, Lo(x), "U"), Rg(Lo(x), L, Pf(x))>>)
    [] op = "c_split_after" -> ok(<<Rg(Zero, Add(Lo(x), One), "N"), Rg(Add(Lo(x), One), L, "U")>>)
    [] op = "c_split_around" -> ok(<<Rg(Zero, Lo(x), "U"), Rg(Hi(x), L, "U")>>)
    [] op \in {"before", "range_of_to"} -> ok(<<Rg(Zero, Lo(x), "U")>>)
    [] op = "after" -> ok(<<Rg(Add(Lo(x), One), L, "U")>>)
    [] op = "range_of_from" -> ok(<<Rg(Lo(x), L, "U")>>)
    [] op = "forward" -> LET j == Add(Lo(x), One) IN moved(Lt(j, L), Ix(j, "N"))
    [] op = "forward_by" -> LET j == SatAdd(Lo(x), n[1]) IN moved(Lt(j, L), Ix(j, "N"))
    [] op = "backward" -> IF before(Lo(x)) THEN moved(TRUE, Ix(Minus(Lo(x), One), "N")) ELSE moved(FALSE, x)
    [] op = "forward_range_by" -> ok(<<Rg(MinW(L, SatAdd(Lo(x), n[1])), MinW(L, SatAdd(Hi(x), n[1])), "U")>>)
  \* scans: the range found and how often the predicate was asked
    [] op = "scan_from" ->
         LET lim == Minus(L, Add(Lo(x), One))  k == Taken(m, lim) IN
         Out("ok", <<Rg(Lo(x), Add(Add(Lo(x), One), k), "N")>>, <<MinW(Add(k, One), lim)>>, <<>>, L)
    [] op = "scan_from_rev" ->
         LET lim == Lo(x)  k == Taken(m, lim) IN
         Out("ok", <<Rg(Minus(Lo(x), k), Add(Lo(x), One), "N")>>, <<MinW(Add(k, One), lim)>>, <<>>, L)
    [] op = "scan_range" ->
         LET lim == Size(x)  k == Taken(m, lim) IN
         Out("ok", <<Rg(Lo(x), Add(Lo(x), k), "U"), Rg(Add(Lo(x), k), Hi(x), "U")>>, <<MinW(Add(k, One), lim)>>, <<>>, L)
  \* accesses: the length of what is seen
    [] op = "get" -> num(<<One>>)
    [] op \in {"get_r", "mut_r"} -> num(<<Size(x)>>)
    [] op \in {"get_from", "mut_from"} -> num(<<Minus(L, Lo(x))>>)
    [] op \in {"get_to", "mut_to"} -> num(<<Lo(x)>>)
    [] op \in {"get_full", "mut_full"} -> num(<<L>>)
    [] op = "index_twice" -> IF Le(Hi(x), Lo(y)) THEN num(<<Size(x), Size(y)>>) ELSE err
    [] op \in {"set", "swap"} -> ok(<<>>)
  \* growth
    [] op = "push" -> Out("ok", <<Ix(L, "N")>>, <<>>, <<>>, Add(L, One))
    [] op = "insert" -> Out("ok", <<>>, <<>>, <<>>, Add(L, One))
    [] OTHER -> Out("unknown", <<>>, <<>>, <<>>, L)

\* the recorded parts p of a subdivision into n, of which at most `most` were taken
SubdivideOk(x, n, p, most) ==
  IF Lt(Size(x), n) THEN p = <<>>
  ELSE LET all == Le(n, Num(most))
           k == IF all THEN n[3] ELSE most IN
       /\ Len(p) = k
       /\ \A j \in 1..k : K(p[j]) = "R" /\ Pf(p[j]) = "N" /\ Lt(Lo(p[j]), Hi(p[j])) /\ Le(Hi(p[j]), Hi(x))
       /\ Lo(p[1]) = Lo(x)
       /\ all => Hi(p[k]) = Hi(x)
       /\ \A j \in 1..(k - 1) : Hi(p[j]) = Lo(p[j + 1])
       \* (with that, each has the n-th part of the elements, rounded down or up)
       /\ \A j \in 1..k : \A i \in 1..k : Le(Size(p[j]), Add(Size(p[i]), One))

SameOrBothEmpty(p, q) == \/ p = q
                         \/ K(p) = "R" /\ K(q) = "R" /\ Pf(p) = Pf(q) /\ ~Some(p) /\ Lo(q) = Hi(q)
=============================================================================
