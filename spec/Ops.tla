--------------------------------- MODULE Ops ---------------------------------
(***************************************************************************)
(* The meaning of every public operation on containers and trusted         *)
(* positions.  Exp(op, a, n, m, e, c) is the outcome of calling op with    *)
(* positions a, numbers n, scripted closure answers m, new elements e, on  *)
(* a container whose storage is c:                                         *)
(*   s  "ok" | "err" | "none" | "panic"     p  returned positions          *)
(*   i  returned numbers   l  element lists seen   b  returned booleans    *)
(*   c  the storage afterwards                                             *)
(* Numbers are compared exactly up to CAP = 2^30 ("huge" above).           *)
(***************************************************************************)
EXTENDS Particles, SequencesExt

Out(s, p, i, l, b, c) == [s |-> s, p |-> p, i |-> i, l |-> l, b |-> b, c |-> c]

\* --- pieces shared by the index and the pointer representation ------------
Half(x) == Lo(x) + Len_(x) \div 2
MkR(k, a, b, p) == <<k, a, b, p>>
MkI(k, i, p)    == <<k, i, i, p>>
IK(k) == IF k = "R" THEN "I" ELSE "Q"      \* index kind that goes with a range kind

\* how many leading answers are TRUE, at most lim
Accepted(m, lim) ==
  FoldLeft(LAMBDA z, b : IF z.on /\ b THEN [k |-> z.k + 1, on |-> TRUE] ELSE [k |-> z.k, on |-> FALSE],
           [k |-> 0, on |-> TRUE], SubSeq(m, 1, Max(0, Min(lim, Len(m))))).k

\* an iteration script: TRUE = next(), FALSE = next_back()
RECURSIVE IterP(_, _, _, _, _)
IterP(k, lo, hi, m, j) ==
  IF j > Len(m) THEN <<>>
  ELSE IF lo >= hi THEN <<MkR(k, lo, hi, "U"), MkR(k, lo, hi, "U")>> \o IterP(k, lo, hi, m, j + 1)
  ELSE IF m[j] THEN <<MkI(IK(k), lo, "N"), MkR(k, lo + 1, hi, "U")>> \o IterP(k, lo + 1, hi, m, j + 1)
  ELSE <<MkI(IK(k), hi - 1, "N"), MkR(k, lo, hi - 1, "U")>> \o IterP(k, lo, hi - 1, m, j + 1)
IterB(len, m) == [j \in 1..(2 * Len(m)) |-> IF j % 2 = 0 THEN TRUE ELSE (j + 1) \div 2 <= len]

IterAllP(k, lo, hi) == [j \in 1..(2 * (hi - lo)) |->
    IF j <= hi - lo THEN MkI(IK(k), lo + j - 1, "N") ELSE MkI(IK(k), hi - (j - (hi - lo)), "N")]

\* a script of steps: 4j nth(j), 4j+1 nth_back(j), 2 next, 3 next_back
IterX(k, lo, hi, n) ==
  FoldLeft(LAMBDA z, v :
     LET j == v \div 4
         back == v \in {3, 4 * j + 1}
         skip == IF v \in {2, 3} THEN 0 ELSE j
         hit == z.lo + skip < z.hi
         got == IF back THEN z.hi - 1 - skip ELSE z.lo + skip
         rest == IF ~hit THEN <<z.hi, z.hi>> ELSE IF back THEN <<z.lo, got>> ELSE <<got + 1, z.hi>>
         now == MkR(k, rest[1], rest[2], "U") IN
     [lo |-> rest[1], hi |-> rest[2], p |-> z.p \o <<IF hit THEN MkI(IK(k), got, "N") ELSE now, now>>, b |-> Append(z.b, hit)],
     [lo |-> lo, hi |-> hi, p |-> <<>>, b |-> <<>>], n)
\* what is left, seen through every other method of the iterator
IterXTail(k, lo, hi) ==
  LET n == hi - lo  at(j) == MkI(IK(k), lo + j, "N") IN
  [j \in 1..n |-> at(j - 1)] \o [j \in 1..n |-> at(n - j)] \o [j \in 1..((n + 1) \div 2) |-> at(2 * j - 2)]
  \o [j \in 1..Min(2, Max(0, n - 1)) |-> at(j)] \o [j \in 1..(2 * Min(1, n)) |-> at(n - 1)]

\* three-way comparison of (start, end) pairs: 0 less, 1 equal, 2 greater
Cmp(x, y) == IF Lo(x) < Lo(y) THEN 0 ELSE IF Lo(x) > Lo(y) THEN 2
             ELSE IF Hi(x) < Hi(y) THEN 0 ELSE IF Hi(x) > Hi(y) THEN 2 ELSE 1

\* zip_mut_raw: for each offset, look at the pair and then exchange it
ZipRun(c, a, b, k) ==
  FoldLeft(LAMBDA z, j : [c |-> Swap(z.c, a + j, b + j), l1 |-> Append(z.l1, At(z.c, a + j)), l2 |-> Append(z.l2, At(z.c, b + j))],
           [c |-> c, l1 |-> <<>>, l2 |-> <<>>], [j \in 1..k |-> j - 1])

Exp(op, a, n, m, e, c) ==
  LET L == Len(c)
      x == a[1]
      y == a[2]
      ok(p)  == Out("ok", p, <<>>, <<>>, <<>>, c)
      num(i) == Out("ok", <<>>, i, <<>>, <<>>, c)
      bool(b) == Out("ok", <<>>, <<>>, <<>>, b, c)
      els(l) == Out("ok", <<>>, <<>>, l, <<>>, c)
      err    == Out("err", <<>>, <<>>, <<>>, <<>>, c)
      wr(l, d) == Out("ok", <<>>, <<>>, l, <<>>, d)
      moved(ok_, i) == Out("ok", <<IF ok_ THEN i ELSE x>>, <<>>, <<>>, <<ok_>>, c)
      \* the predicate panics at call number n[1], if that many calls are made
      scan(calls, o) == IF Len(n) > 0 /\ n[1] <= calls THEN Out("panic", <<>>, <<>>, <<>>, <<>>, c) ELSE o
      seen(p, l) == Out("ok", p, <<>>, <<l>>, <<>>, c)
  IN
  CASE
  \* ---------------- Index ----------------
       op \in {"i_integer"} -> num(<<Lo(x)>>)
    [] op \in {"i_after", "q_after"} -> ok(<<MkI(K(x), Lo(x) + 1, "U")>>)
    [] op = "i_no_proof" -> ok(<<MkI("I", Lo(x), "U")>>)
    [] op = "q_no_proof" -> ok(<<MkI("Q", Lo(x), "U")>>)
    [] op \in {"i_copy", "r_copy"} -> ok(<<x, x>>)
    [] op = "q_ptr" -> Out("ok", <<x>>, <<>>, <<>>, <<TRUE>>, c)
    [] op \in {"cmp_i", "cmp_r"} ->
         LET o == Cmp(x, y) IN
         Out("ok", <<>>, <<o, IF o = 1 THEN 1 ELSE 0, 1>>, <<>>, <<o = 1, o # 1, o = 0, o # 2, o = 2, o # 0>>, c)
    [] op \in {"ord_i", "ord_r"} ->
         LET o == Cmp(x, y) IN
         Out("ok", <<IF o = 0 THEN y ELSE x, IF o = 0 THEN x ELSE y>>, <<o>>, <<>>, <<o = 0, o # 2, o = 2, o # 0, o = 1>>, c)
    [] op \in {"q_eq", "p_eq", "s_eq"} -> bool(<<Cmp(x, y) = 1, Cmp(x, y) # 1>>)
  \* ---------------- ranges, all representations ----------------
    [] op \in {"r_len", "p_len", "s_len"} -> num(<<Len_(x)>>)
    [] op \in {"r_is_empty", "p_is_empty", "s_is_empty"} -> bool(<<Len_(x) = 0>>)
    [] op = "r_start" -> num(<<Lo(x)>>)
    [] op = "r_end" -> num(<<Hi(x)>>)
    [] op = "r_as_range" -> num(<<Lo(x), Hi(x)>>)
    [] op \in {"nonempty", "into_checked", "p_nonempty", "s_nonempty"} ->
         IF Len_(x) > 0 THEN ok(<<MkR(K(x), Lo(x), Hi(x), "N")>>) ELSE err
    [] op \in {"split_in_half", "p_split_in_half", "s_split_in_half"} ->
         ok(<<MkR(K(x), Lo(x), Half(x), "U"), MkR(K(x), Half(x), Hi(x), Pf(x))>>)
    [] op = "r_split_at" ->
         LET mid == Min(Hi(x), Lo(x) + n[1]) IN
         Out("ok", <<Rg(Lo(x), mid, "U"), Rg(mid, Hi(x), "U")>>, <<>>, <<>>, <<n[1] <= Len_(x)>>, c)
    [] op = "contains" ->
         IF Lo(x) <= n[1] /\ n[1] < Hi(x) THEN ok(<<Ix(n[1], "N")>>) ELSE Out("none", <<>>, <<>>, <<>>, <<>>, c)
    [] op = "join" -> IF Hi(x) = Lo(y) THEN ok(<<Rg(Lo(x), Hi(y), Sum(Pf(x), Pf(y)))>>) ELSE err
    [] op = "join_cover" -> ok(<<Rg(Lo(x), Max(Hi(x), Hi(y)), Pf(x))>>)
    [] op = "join_cover_both" -> ok(<<Rg(Min(Lo(x), Lo(y)), Max(Hi(x), Hi(y)), Sum(Pf(x), Pf(y)))>>)
    [] op = "frontiers" -> ok(<<Rg(Lo(x), Lo(x), "U"), Rg(Hi(x), Hi(x), "U")>>)
    [] op = "r_forward_by" ->
         LET t == Lo(y) + n[1] < Hi(x) IN
         Out("ok", <<Ix(IF t THEN Lo(y) + n[1] ELSE Lo(y), "N")>>, <<>>, <<>>, <<t>>, c)
    [] op = "r_forward_range_by" -> ok(<<Rg(Min(Hi(x), Lo(y) + n[1]), Min(Hi(x), Hi(y) + n[1]), "U")>>)
    [] op = "r_no_proof" -> ok(<<MkR("R", Lo(x), Hi(x), "U"), MkR("R", Lo(x), Hi(x), "U"), MkR("R", Lo(x), Hi(x), "U")>>)
    [] op \in {"p_no_proof", "s_no_proof"} -> ok(<<MkR(K(x), Lo(x), Hi(x), "U"), x>>)
    [] op = "p_to_slice" -> ok(<<MkR("S", Lo(x), Hi(x), Pf(x))>>)
    [] op = "s_to_range" -> ok(<<MkR("P", Lo(x), Hi(x), Pf(x))>>)
    [] op \in {"p_trait", "s_trait"} -> Out("ok", <<MkI("Q", Lo(x), "U"), MkI("Q", Hi(x), "U")>>, <<Len_(x)>>, <<>>, <<>>, c)
    [] op \in {"first", "p_first", "s_first"} -> ok(<<MkI(IK(K(x)), Lo(x), Pf(x))>>)
    [] op \in {"upper_middle", "p_upper_middle", "s_upper_middle"} -> ok(<<MkI(IK(K(x)), Half(x), Pf(x))>>)
    [] op \in {"past_the_end", "p_past_the_end", "s_past_the_end"} -> ok(<<MkI(IK(K(x)), Hi(x), "U")>>)
    [] op = "lower_middle" -> ok(<<Ix(Lo(x) + (Len_(x) - 1) \div 2, "N")>>)
    [] op \in {"last", "p_last", "s_last"} -> ok(<<MkI(IK(K(x)), Hi(x) - 1, "N")>>)
    [] op \in {"tail", "p_tail", "s_tail"} -> ok(<<MkR(K(x), Lo(x) + 1, Hi(x), "U")>>)
    [] op \in {"init", "p_init", "s_init"} -> ok(<<MkR(K(x), Lo(x), Hi(x) - 1, "U")>>)
    [] op = "advance_" -> IF Len_(x) > 1 THEN ok(<<Rg(Lo(x) + 1, Hi(x), "N")>>) ELSE err
    [] op \in {"advance", "p_advance", "s_advance"} -> moved(Len_(x) > 1, MkR(K(x), Lo(x) + 1, Hi(x), "N"))
    [] op = "advance_by" -> moved(Lo(x) + n[1] < Hi(x), Rg(Lo(x) + n[1], Hi(x), "N"))
    [] op \in {"advance_back", "p_advance_back", "s_advance_back"} -> moved(Len_(x) > 1, MkR(K(x), Lo(x), Hi(x) - 1, "N"))
    [] op \in {"iter", "p_iter"} ->
         Out("ok", <<MkR(K(x), Lo(x), Hi(x), "U")>> \o IterP(K(x), Lo(x), Hi(x), m, 1), <<>>, <<>>, IterB(Len_(x), m), c)
    [] op \in {"iter_all", "p_iter_all"} ->
         Out("ok", IterAllP(K(x), Lo(x), Hi(x)), IF op = "iter_all" THEN <<Len_(x), Len_(x)>> ELSE <<Len_(x), Len_(x), Len_(x)>>, <<>>, <<>>, c)
    [] op \in {"iter_x", "p_iter_x"} ->
         LET z == IterX(K(x), Lo(x), Hi(x), n) IN
         Out("ok", z.p \o IterXTail(K(x), z.lo, z.hi), <<z.hi - z.lo, z.hi - z.lo, z.hi - z.lo>>, <<>>, z.b, c)
  \* ---------------- container ----------------
    [] op = "len" -> num(<<L>>)
    [] op = "range" -> ok(<<Rg(0, L, "U")>>)
    [] op = "empty_range" -> ok(<<Rg(0, 0, "U")>>)
    [] op = "vet" -> IF n[1] < L THEN ok(<<Ix(n[1], "N")>>) ELSE err
    [] op = "vet_range" -> IF n[1] <= n[2] /\ n[2] <= L THEN ok(<<Rg(n[1], n[2], "U")>>) ELSE err
    [] op = "c_split_at" -> ok(<<Rg(0, Lo(x), "U"), Rg(Lo(x), L, Pf(x))>>)
    [] op = "c_split_after" -> ok(<<Rg(0, Lo(x) + 1, "N"), Rg(Lo(x) + 1, L, "U")>>)
    [] op = "c_split_around" -> ok(<<Rg(0, Lo(x), "U"), Rg(Hi(x), L, "U")>>)
    [] op = "before" -> ok(<<Rg(0, Lo(x), "U")>>)
    [] op = "after" -> ok(<<Rg(Lo(x) + 1, L, "U")>>)
    [] op = "range_of_from" -> ok(<<Rg(Lo(x), L, "U")>>)
    [] op = "range_of_to" -> ok(<<Rg(0, Lo(x), "U")>>)
    [] op = "range_of_full" -> ok(<<Rg(0, L, "U")>>)
    [] op = "forward" -> moved(Lo(x) + 1 < L, Ix(Lo(x) + 1, "N"))
    [] op = "forward_by" -> moved(Lo(x) + n[1] < L, Ix(Lo(x) + n[1], "N"))
    [] op = "backward" -> moved(Lo(x) > 0, Ix(Lo(x) - 1, "N"))
    [] op = "forward_range_by" -> ok(<<Rg(Min(L, Lo(x) + n[1]), Min(L, Hi(x) + n[1]), "U")>>)
  \* ---------------- scans ----------------
    [] op = "scan_from" ->
         LET lim == L - Lo(x) - 1  k == Accepted(m, lim)  calls == Min(k + 1, lim) IN
         scan(calls, seen(<<Rg(Lo(x), Lo(x) + 1 + k, "N")>>, Sub(c, Lo(x) + 1, Lo(x) + 1 + calls)))
    [] op = "scan_from_rev" ->
         LET lim == Lo(x)  k == Accepted(m, lim)  calls == Min(k + 1, lim) IN
         scan(calls, seen(<<Rg(Lo(x) - k, Lo(x) + 1, "N")>>, Rev(Sub(c, Lo(x) - calls, Lo(x)))))
    [] op = "scan_tail" ->
         LET lim == Lo(x)  k == Accepted(m, lim)  calls == Min(k + 1, lim) IN
         scan(calls, seen(<<MkR("P", Lo(x) - k, Lo(x) + 1, "N")>>, Rev(Sub(c, Lo(x) - calls, Lo(x)))))
    [] op \in {"scan_range", "scan_pr"} ->
         LET lim == Len_(x)  k == Accepted(m, lim)  calls == Min(k + 1, lim) IN
         scan(calls, seen(<<MkR(K(x), Lo(x), Lo(x) + k, "U"), MkR(K(x), Lo(x) + k, Hi(x), "U")>>, Sub(c, Lo(x), Lo(x) + calls)))
    [] op = "scan_pr_rev" ->
         LET lim == Len_(x)  k == Accepted(m, lim)  calls == Min(k + 1, lim) IN
         scan(calls, seen(<<MkR("P", Lo(x), Hi(x) - k, "U"), MkR("P", Hi(x) - k, Hi(x), "U")>>, Rev(Sub(c, Hi(x) - calls, Hi(x)))))
  \* ---------------- access ----------------
    [] op \in {"get", "get_q"} -> els(<<<<At(c, Lo(x))>>>>)
    [] op \in {"get_r", "get_p"} -> els(<<Sub(c, Lo(x), Hi(x))>>)
    [] op \in {"get_from", "get_qfrom"} -> els(<<Sub(c, Lo(x), L)>>)
    [] op \in {"get_to", "get_qto"} -> els(<<Sub(c, 0, Lo(x))>>)
    [] op = "get_full" -> els(<<c>>)
    [] op = "set" -> wr(<<>>, [c EXCEPT ![Lo(x) + 1] = e[1]])
    [] op \in {"mut_r", "mut_p"} -> wr(<<Sub(c, Lo(x), Hi(x))>>, RevIn(c, Lo(x), Hi(x)))
    [] op \in {"mut_from", "mut_qfrom"} -> wr(<<Sub(c, Lo(x), L)>>, RevIn(c, Lo(x), L))
    [] op \in {"mut_to", "mut_qto"} -> wr(<<Sub(c, 0, Lo(x))>>, RevIn(c, 0, Lo(x)))
    [] op = "mut_full" -> wr(<<c>>, Rev(c))
  \* ---------------- in-place moves ----------------
    [] op \in {"swap", "swap_ptr"} -> wr(<<>>, Swap(c, Lo(x), Lo(y)))
    [] op \in {"rotate1_up", "rotate1_prange"} -> wr(<<>>, RotUp(c, Lo(x), Hi(x)))
    [] op = "rotate1_down" -> wr(<<>>, RotDn(c, Lo(x), Hi(x)))
    [] op = "index_twice" ->
         IF Hi(x) <= Lo(y)
         THEN wr(<<Sub(c, Lo(x), Hi(x)), Sub(c, Lo(y), Hi(y))>>, RevIn(RevIn(c, Lo(x), Hi(x)), Lo(y), Hi(y)))
         ELSE err
    [] op = "zip_mut_raw" ->
         LET k == Min(Len_(x), Len_(y))
             pan == Len(n) > 0 /\ n[1] <= k
             z == ZipRun(c, Lo(x), Lo(y), IF pan THEN n[1] - 1 ELSE k) IN
         IF pan THEN Out("panic", <<>>, <<>>, <<>>, <<>>, z.c) ELSE wr(<<z.l1, z.l2>>, z.c)
  \* ---------------- growth ----------------
    [] op = "push" -> Out("ok", <<Ix(L, "N")>>, <<>>, <<>>, <<>>, Append(c, e[1]))
    [] op = "insert" -> wr(<<>>, InsertIn(c, Lo(x), e[1]))
  \* ---------------- pointers of the container ----------------
    [] op \in {"pointer_range", "pr_of_full"} -> ok(<<MkR("P", 0, L, "U")>>)
    [] op = "pointer_slice" -> ok(<<MkR("S", 0, L, "U")>>)
    [] op = "pr_of_from" -> ok(<<MkR("P", Lo(x), L, "U")>>)
    [] op = "pr_of_to" -> ok(<<MkR("P", 0, Lo(x), "U")>>)
    [] op = "nonempty_range" -> IF Lo(x) < Lo(y) THEN ok(<<MkR("P", Lo(x), Lo(y), "N")>>) ELSE err
    [] op = "distance_to" -> num(<<Lo(x)>>)
    [] op = "split_at_pointer" -> ok(<<MkR("P", 0, Lo(x), "U"), MkR("P", Lo(x), L, Pf(x))>>)
    [] op = "split_container" ->
         LET c1 == Sub(c, 0, Lo(x))  c2 == Sub(c, Lo(x), L) IN
         Out("ok", <<MkR("P", 0, Lo(x), "U"), MkR("P", Lo(x), L, Pf(x))>>, <<Lo(x), L - Lo(x)>>,
             <<c1, c2, c1, c2, c1, c2>>, <<>>, Rev(c1) \o Rev(c2))
    [] OTHER -> Out("unknown", <<>>, <<>>, <<>>, <<>>, c)

\* The parts of a subdivision (judged by its contract: the exact placement of
\* the longer parts is not promised).
SubdivideOk(x, k, p) ==
  LET len == Len_(x) IN
  IF k > len THEN p = <<>>
  ELSE /\ Len(p) = k
       /\ \A j \in 1..k : K(p[j]) = "R" /\ Pf(p[j]) = "N" /\ Lo(p[j]) < Hi(p[j])
       /\ Lo(p[1]) = Lo(x) /\ Hi(p[k]) = Hi(x)
       /\ \A j \in 1..(k - 1) : Hi(p[j]) = Lo(p[j + 1])
       /\ \A j \in 1..k : Len_(p[j]) \in {len \div k, (len + k - 1) \div k}

\* ... and what its iterator says through its other methods (n[2]: how many
\* parts nth skips)
SubdivideXOk(x, n, p, i) ==
  LET k == IF n[1] > Len_(x) THEN 0 ELSE n[1]
      part == SubSeq(p, 1, k)
      tail == IF n[2] < k THEN SubSeq(part, n[2] + 1, k) ELSE <<>> IN
  /\ Len(p) >= k /\ SubdivideOk(x, n[1], part)
  /\ Len(i) = 3 /\ i[1] <= k /\ k <= i[2] /\ i[3] = k
  /\ p = part \o part \o tail \o [j \in 1..((k + 1) \div 2) |-> part[2 * j - 1]] \o (IF k > 0 THEN <<part[k]>> ELSE <<>>)

\* An iterator that has ended may call any empty range its rest; its size hint
\* may be wide.
SameOrBothEmpty(p, q) == \/ p = q
                         \/ ~IsIdx(p) /\ ~IsIdx(q) /\ K(p) = K(q) /\ Pf(p) = Pf(q) /\ Len_(p) = 0 /\ Lo(q) = Hi(q)
IterXOk(ev, o) ==
  /\ Len(ev.p) = Len(o.p) /\ \A j \in 1..Len(ev.p) : SameOrBothEmpty(o.p[j], ev.p[j])
  /\ Len(ev.i) = 3 /\ ev.i[1] <= o.i[1] /\ o.i[2] <= ev.i[2] /\ ev.i[3] = o.i[3]

\* Two unequal values may hash alike, everything else is exact.
NumsOk(op, exp, got) ==
  IF op \in {"cmp_i", "cmp_r"} /\ Len(got) = 3
  THEN exp[1] = got[1] /\ (exp[2] = 1 => got[2] = 1) /\ exp[3] = got[3]
  ELSE exp = got

\* Is the recorded outcome ev of a call on storage c, leaving c2, the one the
\* specification gives?
OutcomeOk(ev, c, c2) ==
  IF ev.op = "subdivide"
  THEN ev.s = "ok" /\ SubdivideOk(ev.a[1], ev.n[1], ev.p) /\ ev.b = <<TRUE, TRUE>> /\ c2 = c
  ELSE IF ev.op = "subdivide_x" THEN ev.s = "ok" /\ SubdivideXOk(ev.a[1], ev.n, ev.p, ev.i) /\ c2 = c
  ELSE IF ev.op \in {"iter_x", "p_iter_x"}
  THEN LET o == Exp(ev.op, ev.a, ev.n, ev.m, ev.e, c) IN ev.s = "ok" /\ IterXOk(ev, o) /\ ev.b = o.b /\ c2 = c
  ELSE LET o == Exp(ev.op, ev.a, ev.n, ev.m, ev.e, c) IN
       /\ o.s = ev.s /\ o.p = ev.p /\ NumsOk(ev.op, o.i, ev.i) /\ o.l = ev.l /\ o.b = ev.b /\ o.c = c2
=============================================================================
