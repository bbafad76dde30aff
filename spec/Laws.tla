-------------------------------- MODULE Laws ---------------------------------
(***************************************************************************)
(* The listed properties, stated on a call and its outcome without saying  *)
(* how the outcome is computed.  TLC checks them on every transition of    *)
(* Indexing.tla (the design), trace validation ties the code to it.        *)
(* t: [op, a, n, m, e, c, o]  -- arguments, storage before, outcome o      *)
(***************************************************************************)
EXTENDS Calls

Pos(x) == Lo(x)..(Hi(x) - 1)                  \* the positions a range designates
Elems(s) == { s[k] : k \in 1..Len(s) }
\* pieces lie next to each other, in order, and make up [a, b)
RECURSIVE Adjacent(_, _, _)
Adjacent(ps, a, b) == IF ps = <<>> THEN a = b
                      ELSE Lo(ps[1]) = a /\ Lo(ps[1]) <= Hi(ps[1]) /\ Adjacent(Tail(ps), Hi(ps[1]), b)
Count(s, x) == Cardinality({ k \in 1..Len(s) : s[k] = x })
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Count(s, s[k]) = Count(t, s[k])
Frozen(c, d, S) == Len(c) = Len(d) /\ \A k \in (0..(Len(c) - 1)) \ S : At(c, k) = At(d, k)

\* C01: results are trusted positions of the container as it is afterwards
C01(t) == \A k \in 1..Len(t.o.p) : Trusted(t.o.p[k], Len(t.o.c))

\* C02: access sees exactly the designated elements and writes no others
Designated(t) ==
  LET L == Len(t.c)  x == t.a[1] IN
  CASE t.op \in {"get", "set", "get_q"} -> <<Lo(x), Lo(x) + 1>>
    [] t.op \in {"get_r", "get_p", "mut_r", "mut_p"} -> <<Lo(x), Hi(x)>>
    [] t.op \in {"get_from", "get_qfrom", "mut_from", "mut_qfrom"} -> <<Lo(x), L>>
    [] t.op \in {"get_to", "get_qto", "mut_to", "mut_qto"} -> <<0, Lo(x)>>
    [] t.op \in {"get_full", "mut_full"} -> <<0, L>>
    [] OTHER -> <<0, 0>>
Accesses == {"get", "get_q", "get_r", "get_p", "mut_r", "mut_p", "get_from", "get_qfrom", "mut_from", "mut_qfrom",
             "get_to", "get_qto", "mut_to", "mut_qto", "get_full", "mut_full"}
C02(t) ==
  LET d == Designated(t) IN
  /\ t.op \in Accesses => /\ Len(t.o.l) = 1 /\ Len(t.o.l[1]) = d[2] - d[1]
                          /\ \A j \in 1..Len(t.o.l[1]) : t.o.l[1][j] = At(t.c, d[1] + j - 1)
  /\ t.op \in Accesses \union {"set"} => Frozen(t.c, t.o.c, d[1]..(d[2] - 1))
  /\ t.op = "set" => At(t.o.c, Lo(t.a[1])) = t.e[1]
  /\ t.op = "len" => t.o.i = <<Len(t.c)>>

\* C03: vetting accepts exactly what is in bounds
C03(t) ==
  /\ t.op \in {"vet", "vet_range", "contains", "nonempty", "into_checked"} => t.o.s # "panic"
  /\ t.op = "vet" => (t.o.s = "ok" <=> t.n[1] < Len(t.c)) /\ (t.o.s = "ok" => t.o.p = <<Ix(t.n[1], "N")>>)
  /\ t.op = "contains" => (t.o.s = "ok" <=> t.n[1] \in Pos(t.a[1])) /\ (t.o.s = "ok" => t.o.p = <<Ix(t.n[1], "N")>>)
  /\ t.op = "vet_range" => (t.o.s = "ok" <=> t.n[1] <= t.n[2] /\ t.n[2] <= Len(t.c)) /\ (t.o.s = "ok" => t.o.p = <<Rg(t.n[1], t.n[2], "U")>>)
  /\ t.op \in {"nonempty", "into_checked"} => (t.o.s = "ok" <=> Pos(t.a[1]) # {}) /\ (t.o.s = "ok" => t.o.p = <<Rg(Lo(t.a[1]), Hi(t.a[1]), "N")>>)

\* C04: split pieces are adjacent and cover; joins cover
C04(t) ==
  LET L == Len(t.c)  x == t.a[1]  y == t.a[2]  p == t.o.p IN
  CASE t.op \in {"split_in_half", "p_split_in_half", "s_split_in_half"} ->
         /\ Adjacent(p, Lo(x), Hi(x)) /\ Len_(p[2]) - Len_(p[1]) \in {0, 1} /\ Pf(p[2]) = Pf(x)
    [] t.op = "r_split_at" -> Adjacent(p, Lo(x), Hi(x)) /\ Len_(p[1]) = Min(t.n[1], Len_(x)) /\ t.o.b = <<t.n[1] <= Len_(x)>>
    [] t.op \in {"c_split_at", "split_at_pointer"} -> Adjacent(p, 0, L) /\ Hi(p[1]) = Lo(x) /\ Pf(p[2]) = Pf(x)
    [] t.op = "c_split_after" -> Adjacent(p, 0, L) /\ Lo(x) = Hi(p[1]) - 1 /\ Pf(p[1]) = "N"
    [] t.op = "c_split_around" -> Adjacent(<<p[1], x, p[2]>>, 0, L)
    [] t.op = "before" -> Pos(p[1]) = { k \in 0..(L - 1) : k < Lo(x) }
    [] t.op = "after" -> Pos(p[1]) = { k \in 0..(L - 1) : k > Lo(x) }
    [] t.op = "range_of_from" -> Pos(p[1]) = { k \in 0..(L - 1) : k >= Lo(x) }
    [] t.op = "range_of_to" -> Pos(p[1]) = { k \in 0..(L - 1) : k < Lo(x) }
    [] t.op \in {"range", "range_of_full", "pointer_range"} -> Pos(p[1]) = 0..(L - 1)
    [] t.op = "empty_range" -> Pos(p[1]) = {}
    [] t.op = "join" -> /\ t.o.s = "ok" <=> Hi(x) = Lo(y)
                        /\ t.o.s = "ok" => Adjacent(<<x, y>>, Lo(p[1]), Hi(p[1])) /\ (Pf(p[1]) = "N" <=> "N" \in {Pf(x), Pf(y)})
    [] t.op = "join_cover" -> Lo(p[1]) = Lo(x) /\ Pos(x) \subseteq Pos(p[1]) /\ Hi(p[1]) \in {Hi(x), Hi(y)} /\ Hi(p[1]) >= Hi(y) /\ Pf(p[1]) = Pf(x)
    [] t.op = "join_cover_both" ->
         /\ Pos(x) \union Pos(y) \subseteq Pos(p[1]) /\ Lo(p[1]) \in {Lo(x), Lo(y)} /\ Hi(p[1]) \in {Hi(x), Hi(y)}
         /\ (Pf(p[1]) = "N" <=> "N" \in {Pf(x), Pf(y)})
    [] t.op = "frontiers" -> Adjacent(<<p[1], x, p[2]>>, Lo(x), Hi(x)) /\ Pos(p[1]) = {} /\ Pos(p[2]) = {}
    [] t.op \in {"first", "p_first", "s_first"} -> Pf(p[1]) = Pf(x) /\ (Pos(x) # {} => Lo(p[1]) \in Pos(x) /\ \A k \in Pos(x) : Lo(p[1]) <= k)
    [] t.op \in {"last", "p_last", "s_last"} -> Pf(p[1]) = "N" /\ Lo(p[1]) \in Pos(x) /\ \A k \in Pos(x) : Lo(p[1]) >= k
    [] t.op \in {"tail", "p_tail", "s_tail"} -> Pos(p[1]) = { k \in Pos(x) : k > Lo(x) } /\ Hi(p[1]) = Hi(x)
    [] t.op \in {"init", "p_init", "s_init"} -> Pos(p[1]) = { k \in Pos(x) : k < Hi(x) - 1 } /\ Lo(p[1]) = Lo(x)
    [] t.op \in {"upper_middle", "p_upper_middle", "s_upper_middle"} ->
         Pf(p[1]) = Pf(x) /\ (Pos(x) # {} => Lo(p[1]) \in Pos(x)
           /\ Cardinality({ k \in Pos(x) : k < Lo(p[1]) }) - Cardinality({ k \in Pos(x) : k > Lo(p[1]) }) \in {0, 1})
    [] t.op = "lower_middle" ->
         Pf(p[1]) = "N" /\ Lo(p[1]) \in Pos(x) /\ Cardinality({ k \in Pos(x) : k > Lo(p[1]) }) - Cardinality({ k \in Pos(x) : k < Lo(p[1]) }) \in {0, 1}
    [] t.op \in {"past_the_end", "p_past_the_end", "s_past_the_end"} -> Lo(p[1]) = Hi(x) /\ Pf(p[1]) = "U"
    [] t.op \in {"i_after", "q_after"} -> Lo(p[1]) = Lo(x) + 1 /\ Pf(p[1]) = "U"
    [] OTHER -> TRUE

\* C05: a move happens exactly when its result is valid, and by the exact amount
StepOf(t) == IF Len(t.n) = 1 THEN t.n[1] ELSE 1
C05(t) ==
  LET L == Len(t.c)  x == t.a[1]  y == t.a[2]  p == t.o.p IN
  /\ t.op \in {"forward", "forward_by", "backward", "r_forward_by", "forward_range_by", "r_forward_range_by", "advance", "advance_by",
               "advance_back", "advance_"} => t.o.s # "panic"
  /\ t.op \in {"forward", "forward_by"} =>
       /\ t.o.b[1] <=> (Lo(x) + StepOf(t)) \in 0..(L - 1)
       /\ IF t.o.b[1] THEN Lo(p[1]) = Lo(x) + StepOf(t) ELSE p[1] = x
  /\ t.op = "backward" =>
       /\ t.o.b[1] <=> (Lo(x) - 1) \in 0..(L - 1)
       /\ IF t.o.b[1] THEN Lo(p[1]) = Lo(x) - 1 ELSE p[1] = x
  /\ t.op = "r_forward_by" =>
       /\ t.o.b[1] <=> Lo(y) + t.n[1] < Hi(x)
       /\ IF t.o.b[1] THEN Lo(p[1]) = Lo(y) + t.n[1] ELSE p[1] = y
  /\ t.op \in {"advance", "advance_by", "advance_back", "p_advance", "p_advance_back", "s_advance", "s_advance_back"} =>
       LET k == StepOf(t)
           back == t.op \in {"advance_back", "p_advance_back", "s_advance_back"} IN
       /\ t.o.b[1] <=> Len_(x) - k > 0
       /\ IF t.o.b[1] THEN /\ Lo(p[1]) = (IF back THEN Lo(x) ELSE Lo(x) + k)
                           /\ Hi(p[1]) = (IF back THEN Hi(x) - k ELSE Hi(x)) /\ Pf(p[1]) = "N"
          ELSE p[1] = x
  /\ t.op = "advance_" => (t.o.s = "ok" <=> Len_(x) > 1) /\ (t.o.s = "ok" => p = <<Rg(Lo(x) + 1, Hi(x), "N")>>)
  /\ t.op = "forward_range_by" => Lo(p[1]) = Min(L, Lo(x) + t.n[1]) /\ Hi(p[1]) = Min(L, Hi(x) + t.n[1])
  /\ t.op = "r_forward_range_by" => Lo(p[1]) = Min(Hi(x), Lo(y) + t.n[1]) /\ Hi(p[1]) = Min(Hi(x), Hi(y) + t.n[1])

\* C06: iteration yields every position once, in order
C06(t) ==
  LET x == t.a[1]  p == t.o.p IN
  /\ t.op \in {"iter", "p_iter"} =>
       LET steps == 1..Len(t.m)
           hit(j) == t.o.b[2 * j - 1]
           got(j) == p[2 * j]
           rest(j) == p[2 * j + 1]
           yielded(j) == { Lo(got(i)) : i \in { i \in 1..j : hit(i) } } IN
       /\ \A i, j \in steps : i < j /\ hit(i) /\ hit(j) => Lo(got(i)) # Lo(got(j))
       /\ \A j \in steps : /\ Pos(rest(j)) \union yielded(j) = Pos(x)
                           /\ Pos(rest(j)) \intersect yielded(j) = {}
                           /\ ~hit(j) => Pos(rest(j)) = {} /\ yielded(j) = Pos(x)
                           /\ hit(j) => IF t.m[j] THEN \A k \in Pos(rest(j)) : Lo(got(j)) < k ELSE \A k \in Pos(rest(j)) : Lo(got(j)) > k
  /\ t.op \in {"iter_all", "p_iter_all"} =>
       LET n == Len_(x) IN
       /\ Len(p) = 2 * n
       /\ { Lo(p[j]) : j \in 1..n } = Pos(x) /\ \A j \in 1..n : Pf(p[j]) = "N" /\ p[j] = p[2 * n + 1 - j]
       /\ \A j \in 1..(n - 1) : Lo(p[j]) < Lo(p[j + 1])

\* a longer stride: what is skipped is gone, what is left lies beyond
C06x(t) ==
  LET x == t.a[1]  p == t.o.p IN
  t.op \in {"iter_x", "p_iter_x"} =>
    \A j \in 1..Len(t.n) :
      LET was == IF j = 1 THEN Pos(x) ELSE Pos(p[2 * j - 2])
          v == t.n[j]
          skip == IF v \in {2, 3} THEN 0 ELSE v \div 4
          back == v \in {3, 4 * skip + 1}
          at == Lo(p[2 * j - 1]) IN
      /\ t.o.b[j] <=> Cardinality(was) > skip
      /\ ~t.o.b[j] => Pos(p[2 * j]) = {}
      /\ t.o.b[j] => /\ at \in was
                     /\ Cardinality({ k \in was : IF back THEN k > at ELSE k < at }) = skip
                     /\ Pos(p[2 * j]) = { k \in was : IF back THEN k < at ELSE k > at }

\* C07, C15: scans give the maximal accepted run and look at each element once
C07(t) ==
  LET L == Len(t.c)  x == t.a[1]  p == t.o.p
      fwd == t.op \in {"scan_from", "scan_range", "scan_pr"}
      incl == t.op \in {"scan_from", "scan_from_rev", "scan_tail"}
      run == IF t.op = "scan_pr_rev" THEN p[2] ELSE p[1]
      rest == IF t.op = "scan_pr_rev" THEN p[1] ELSE p[2]
      seen == t.o.l[1]
      yes == Accepted(t.m, Len(seen))                     \* accepted among those looked at
      lim == IF incl THEN (IF fwd THEN L - Lo(x) - 1 ELSE Lo(x)) ELSE Len_(x) IN
  t.op \in {"scan_from", "scan_from_rev", "scan_range", "scan_tail", "scan_pr", "scan_pr_rev"} /\ t.o.s = "ok" =>
    /\ Len_(run) = yes + (IF incl THEN 1 ELSE 0)
    /\ Len(seen) \in {yes, yes + 1} /\ Len(seen) <= lim
    /\ (Len(seen) = yes => yes = lim)                        \* stops early only at a rejected element
    /\ incl => Lo(x) \in Pos(run) /\ Pf(run) = "N" /\ (IF fwd THEN Lo(run) = Lo(x) ELSE Hi(run) = Lo(x) + 1)
    /\ ~incl => Adjacent(p, Lo(x), Hi(x))
    /\ \A j \in 1..Len(seen) :
         seen[j] = At(t.c, CASE t.op = "scan_from" -> Lo(x) + j
                             [] t.op \in {"scan_from_rev", "scan_tail"} -> Lo(x) - j
                             [] t.op \in {"scan_range", "scan_pr"} -> Lo(x) + j - 1
                             [] t.op = "scan_pr_rev" -> Hi(x) - j)

\* C08, C15, C18: moves permute, only where they should
C08(t) ==
  LET c == t.c  d == t.o.c  x == t.a[1]  y == t.a[2] IN
  /\ t.op \notin {"push", "insert", "set"} => SameBag(c, d)
  /\ t.op \in {"swap", "swap_ptr"} => At(d, Lo(x)) = At(c, Lo(y)) /\ At(d, Lo(y)) = At(c, Lo(x)) /\ Frozen(c, d, {Lo(x), Lo(y)})
  /\ t.op \in {"rotate1_up", "rotate1_prange"} =>
       Frozen(c, d, Pos(x)) /\ \A k \in Pos(x) : At(d, IF k = Hi(x) - 1 THEN Lo(x) ELSE k + 1) = At(c, k)
  /\ t.op = "rotate1_down" =>
       Frozen(c, d, Pos(x)) /\ \A k \in Pos(x) : At(d, IF k = Lo(x) THEN Hi(x) - 1 ELSE k - 1) = At(c, k)
  /\ t.op = "index_twice" =>
       /\ t.o.s = "ok" <=> Hi(x) <= Lo(y)
       /\ t.o.s = "ok" => Pos(x) \intersect Pos(y) = {} /\ Len(t.o.l[1]) = Len_(x) /\ Len(t.o.l[2]) = Len_(y) /\ Frozen(c, d, Pos(x) \union Pos(y))
       /\ t.o.s = "err" => d = c

\* C09: growth appends or inserts exactly one element
C09(t) ==
  LET c == t.c  d == t.o.c  L == Len(c) IN
  /\ t.op = "push" => SubSeq(d, 1, L) = c /\ Len(d) = L + 1 /\ At(d, L) = t.e[1] /\ t.o.p = <<Ix(L, "N")>>
  /\ t.op = "insert" => LET i == Lo(t.a[1]) IN
       /\ Len(d) = L + 1 /\ At(d, i) = t.e[1]
       /\ \A k \in 0..(L - 1) : At(c, k) = At(d, IF k < i THEN k ELSE k + 1)

\* C13: comparisons are those of the pairs of integers
C13(t) ==
  LET x == t.a[1]  y == t.a[2]
      less == Lo(x) < Lo(y) \/ (Lo(x) = Lo(y) /\ Hi(x) < Hi(y))
      same == Lo(x) = Lo(y) /\ Hi(x) = Hi(y) IN
  /\ t.op \in {"cmp_i", "cmp_r"} =>
       /\ t.o.b = <<same, ~same, less, less \/ same, ~less /\ ~same, ~less>>
       /\ t.o.i[1] = (IF less THEN 0 ELSE IF same THEN 1 ELSE 2) /\ (same => t.o.i[2] = 1)
  /\ t.op \in {"ord_i", "ord_r"} => t.o.i[1] = (IF less THEN 0 ELSE IF same THEN 1 ELSE 2)
  /\ t.op \in {"q_eq", "p_eq", "s_eq"} => t.o.b = <<same, ~same>>

\* C14: a pointer operation is the index operation at the same positions
IndexTwin(op) ==
  CASE op = "p_len" -> "r_len" [] op = "s_len" -> "r_len"
    [] op = "p_is_empty" -> "r_is_empty" [] op = "s_is_empty" -> "r_is_empty"
    [] op = "p_nonempty" -> "nonempty" [] op = "s_nonempty" -> "nonempty"
    [] op = "p_split_in_half" -> "split_in_half" [] op = "s_split_in_half" -> "split_in_half"
    [] op = "p_first" -> "first" [] op = "s_first" -> "first"
    [] op = "p_upper_middle" -> "upper_middle" [] op = "s_upper_middle" -> "upper_middle"
    [] op = "p_past_the_end" -> "past_the_end" [] op = "s_past_the_end" -> "past_the_end"
    [] op = "p_last" -> "last" [] op = "s_last" -> "last"
    [] op = "p_tail" -> "tail" [] op = "s_tail" -> "tail"
    [] op = "p_init" -> "init" [] op = "s_init" -> "init"
    [] op = "p_advance" -> "advance" [] op = "s_advance" -> "advance"
    [] op = "p_advance_back" -> "advance_back" [] op = "s_advance_back" -> "advance_back"
    [] op = "p_iter" -> "iter" [] op = "q_after" -> "i_after"
    [] op = "get_q" -> "get" [] op = "get_p" -> "get_r" [] op = "get_qfrom" -> "get_from" [] op = "get_qto" -> "get_to"
    [] op = "mut_p" -> "mut_r" [] op = "mut_qfrom" -> "mut_from" [] op = "mut_qto" -> "mut_to"
    [] op = "split_at_pointer" -> "c_split_at" [] op = "scan_tail" -> "scan_from_rev" [] op = "scan_pr" -> "scan_range"
    [] op = "swap_ptr" -> "swap" [] op = "rotate1_prange" -> "rotate1_up"
    [] op = "pr_of_from" -> "range_of_from" [] op = "pr_of_to" -> "range_of_to" [] op = "pr_of_full" -> "range_of_full"
    [] OTHER -> "-"
AsIndex(x) == <<IF IsIdx(x) THEN "I" ELSE "R", Lo(x), Hi(x), Pf(x)>>
AsIndexSeq(s) == [k \in 1..Len(s) |-> AsIndex(s[k])]
C14(t) ==
  LET w == IndexTwin(t.op) IN
  w # "-" => LET o == Exp(w, AsIndexSeq(t.a), t.n, t.m, t.e, t.c) IN
             o.s = t.o.s /\ o.p = AsIndexSeq(t.o.p) /\ o.i = t.o.i /\ o.l = t.o.l /\ o.b = t.o.b /\ o.c = t.o.c
C15(t) ==
  LET c == t.c  L == Len(c)  x == t.a[1]  p == t.o.p IN
  t.op = "split_container" =>
    /\ Adjacent(p, 0, L) /\ Pf(p[2]) = Pf(x)
    /\ t.o.l[1] \o t.o.l[2] = c /\ Len(t.o.l[1]) = Lo(x)
    /\ t.o.l[3] = t.o.l[1] /\ t.o.l[4] = t.o.l[2] /\ t.o.l[5] = t.o.l[1] /\ t.o.l[6] = t.o.l[2]

\* C22: pairs at equal offsets, up to the shorter range
C22(t) ==
  t.op = "zip_mut_raw" /\ t.o.s = "ok" =>
    /\ Len(t.o.l[1]) = Min(Len_(t.a[1]), Len_(t.a[2])) /\ Len(t.o.l[2]) = Len(t.o.l[1])
    /\ Frozen(t.c, t.o.c, { Lo(t.a[1]) + k : k \in 0..(Len(t.o.l[1]) - 1) } \union { Lo(t.a[2]) + k : k \in 0..(Len(t.o.l[1]) - 1) })

Laws(t) == C01(t) /\ C02(t) /\ C03(t) /\ C04(t) /\ C05(t) /\ C06(t) /\ C06x(t) /\ C07(t) /\ C08(t) /\ C09(t) /\ C13(t) /\ C14(t) /\ C15(t) /\ C22(t)
=============================================================================
