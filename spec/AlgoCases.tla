------------------------------- MODULE AlgoCases -------------------------------
(***************************************************************************)
(* Small inputs of every algorithm, exhaustively, for replay against the   *)
(* real crate.  The contracts themselves are checked for consistency: on   *)
(* every honest input there is exactly one accepted outcome where the      *)
(* property promises one (Functional), and the reference outcome is        *)
(* accepted (Satisfiable).                                                 *)
(***************************************************************************)
EXTENDS AlgoSpec, TLC, Json, IOUtils, SequencesExt
Cfg == ndJsonDeserialize(IOEnv.FOCUS)[1]
Prop == Cfg.prop
N == Cfg.n              \* longest slice

Seqs(S, n) == UNION { [1..k -> S] : k \in 0..n }
SortedSeqs(S, n) == { s \in Seqs(S, n) : Sorted(s) }
C(op, pol, k, x, y, n) == [op |-> op, pol |-> pol, k |-> k, x |-> x, y |-> y, n |-> n]
Keys3 == 0..2

SortCases(N_) == { C(op, "h", 0, x, <<>>, <<>>) : op \in Sorts, x \in Seqs(Keys3, N) }
StableCases(N_) == { C(op, "h", 0, x, <<>>, <<>>) : op \in Stable, x \in Seqs(Keys3, N) }
TwinCases(N_) == { C("is2", "h", 0, x, [j \in 1..Len(x) |-> 0], <<>>) : x \in Seqs(Keys3, N) }
             \union { C("is2", "h", 0, [j \in 1..a |-> a - j], [j \in 1..b |-> 0], <<>>) : a \in 0..4, b \in 0..4 }
PanicCases(N_) ==
  { C(op, "p", k, x, <<>>, <<>>) : op \in Sorts \union {"heapify"}, x \in Seqs(0..1, 3) \union { <<3,1,2,0>>, <<0,1,2,3>>, <<3,2,1,0>>, <<1,0,1,0>> }, k \in 1..7 }
  \union { C("is2", "p", k, x, x, <<>>) : x \in { <<3,1,2,0>>, <<0,1,2,3>>, <<3,2,1,0>>, <<1,0,1,0>> }, k \in 1..7 }
  \union { C(op, "p", k, x, y, <<le>>) : op \in Merges, x \in { <<1,3,0,2>>, <<0,1,2,3>>, <<2,3,0,1>>, <<1,1,1,0>> }, y \in { <<9,9,9,9>>, <<9,9>> }, le \in 0..4, k \in 1..5 }
LieCases(N_) ==
  { C(op, pol, k, x, <<>>, <<>>) : op \in Sorts \union {"heapify"}, pol \in {"a", "L", "E", "G"}, x \in { <<>>, <<1>>, <<2, 1>>, <<1, 2, 3>>, <<3, 1, 2, 0>> }, k \in 1..4 }
  \union { C(op, pol, k, <<1, 3, 0, 2>>, <<9, 9, 9>>, <<le>>) : op \in Merges, pol \in {"a", "L", "E", "G"}, le \in 0..3, k \in 1..4 }
Ops3 == {1, 3, 5}
OpSeq == SetToSeq((Lowers \union Binaries) \ Ranged)
RangedSeq == SetToSeq(Ranged)
SearchOf(N_, j) == IF j > Len(OpSeq) THEN {} ELSE { C(OpSeq[j], "h", 0, x, <<>>, <<0, Len(x), t>>) : x \in SortedSeqs(Ops3, N), t \in 0..6 }
RangedOf(N_, j) == IF j > Len(RangedSeq) THEN {} ELSE
  UNION { UNION { { C(RangedSeq[j], "h", 0, x, <<>>, <<lo, hi, t>>) : lo \in 0..hi, t \in 0..6 } : hi \in 0..Len(x) } : x \in SortedSeqs(Ops3, 4) }
LieSearch(N_) ==
  UNION { { C(op, pol, k, [j \in 1..n |-> j], <<>>, <<0, n, 2>>) : op \in Lowers \union Binaries, k \in 1..6 } : pol \in {"a", "L", "E", "G", "p"}, n \in 0..7 }
MergeCases(N_) ==
  UNION { { C(op, "h", 0, x, y, <<le>>) : op \in Merges, le \in { k \in 0..(Len(x) + 1) : k <= Len(x) => Sorted(SubSeq(x, 1, k)) /\ Sorted(SubSeq(x, k + 1, Len(x))) } }
          : x \in Seqs(Keys3, N) \ { <<>> }, y \in { [j \in 1..k |-> 9] : k \in {0, 1, 2, N} } }
  \union { C(op, "h", 0, x, <<7, 7, 7, 7>>, <<le>>) : op \in Merges, x \in Seqs(0..1, 4) \ { <<>> }, le \in 0..5 }
HeapCases(N_) == { C("heapify", "h", 0, x, <<>>, <<>>) : x \in Seqs(Keys3, N + 1) }
Up(n) == [j \in 1..n |-> j]
ZipCases(N_) ==
  UNION { UNION { { C(op, IF k = 0 THEN "h" ELSE "p", k, Up(a), Up(b), <<lo1, hi1, lo2, hi2, (lo1 + hi1 + lo2 + k) % 4>>) :
      op \in Zips, k \in 0..2, lo1 \in 0..hi1, lo2 \in 0..hi2 } : hi1 \in 0..a, hi2 \in 0..b } : a \in {0, 1, 3}, b \in {0, 2, 3} }
CopyCases(N_) == { C(op, "h", 0, [j \in 1..a |-> ((j * 7) % 5) - 2], [j \in 1..b |-> 3 - j], <<>>) : op \in Copies \union Dots, a \in 0..(N + 1), b \in 0..(N + 1) }

CasesOf(p) ==
  CASE p = "C16" -> <<SortCases(N)>>
    [] p = "C17" -> <<StableCases(N), TwinCases(N)>>
    [] p = "C18" -> <<PanicCases(N), LieCases(N), { c \in LieSearch(N) : c.pol # "p" }, { c \in ZipCases(N) : c.pol = "p" }>>
    [] p = "C19" -> [j \in 1..10 |-> SearchOf(N, j)] \o [j \in 1..10 |-> RangedOf(N, j)] \o <<LieSearch(N)>>
    [] p = "C20" -> <<MergeCases(N), { c \in PanicCases(N) \union LieCases(N) : c.op \in Merges }>>
    [] p = "C21" -> <<HeapCases(N)>>
    [] p = "C22" -> <<ZipCases(N), CopyCases(N)>>
Groups == CasesOf(Prop)

(* the reference outcome: what an obviously correct implementation leaves *)
RECURSIVE Ins(_, _, _)
Ins(cs, s, id) == IF s = <<>> THEN <<id>>
                  ELSE IF KeyOf(cs, Head(s)) <= KeyOf(cs, id) THEN <<Head(s)>> \o Ins(cs, Tail(s), id) ELSE <<id>> \o s
RECURSIVE SortIds(_, _, _)
SortIds(cs, acc, k) == IF k > Len(cs.x) THEN acc ELSE SortIds(cs, Ins(cs, acc, k), k + 1)
Ev(cs, s, o, o2, r, q) == [op |-> cs.op, pol |-> cs.pol, k |-> cs.k, t |-> "ref", x |-> cs.x, y |-> cs.y, n |-> cs.n, s |-> s, o |-> o, o2 |-> o2,
                          r |-> r, q |-> q, c |-> 0, lg |-> 0, g |-> <<TRUE, TRUE, TRUE>>]
Reference(cs) ==
  LET xs == Ident(Len(cs.x))  ys == IdentY(cs)  so == SortIds(cs, <<>>, 1) IN
  CASE cs.op \in Sorts -> Ev(cs, "ok", so, ys, <<>>, <<>>)
    [] cs.op = "is2" -> IF Len(cs.x) # Len(cs.y) THEN Ev(cs, "panic", xs, ys, <<>>, <<>>)
                        ELSE Ev(cs, "ok", so, [j \in 1..Len(so) |-> Len(cs.x) + so[j]], <<>>, <<>>)
    [] cs.op \in Merges -> IF MergeErr(cs) THEN Ev(cs, "err", xs, ys, <<>>, <<>>) ELSE Ev(cs, "ok", so, ys, <<>>, <<>>)
    [] cs.op \in Lowers -> Ev(cs, "ok", xs, ys, <<cs.n[1] + Below(cs)>>, <<>>)
    [] cs.op \in Binaries ->
         LET hit == { j \in (cs.n[1] + 1)..cs.n[2] : cs.x[j] = cs.n[3] } IN
         IF hit = {} THEN Ev(cs, "absent", xs, ys, <<cs.n[1] + Below(cs)>>, <<>>) ELSE Ev(cs, "found", xs, ys, <<(CHOOSE j \in hit : TRUE) - 1>>, <<>>)
    [] cs.op = "heapify" -> Ev(cs, "ok", so, ys, <<>>, <<>>)
    [] OTHER -> Ev(cs, "skip", xs, ys, <<>>, <<>>)

VARIABLE cs
Init == \E g \in 1..Len(Groups) : cs \in Groups[g]
Next == FALSE /\ cs' = cs
Spec == Init /\ [][Next]_cs
Satisfiable == LET r == Reference(cs) IN r.s = "skip" \/ cs.pol # "h" \/ Holds(Prop, r)
\* a stable result is unique: exchanging any two neighbours is rejected
Functional ==
  LET r == Reference(cs) IN
  cs.pol = "h" /\ r.s = "ok" /\ (cs.op \in Stable \union {"is2"} \/ (cs.op \in Merges /\ ~MergeErr(cs) /\ HalvesSorted(cs))) /\ Prop \in {"C17", "C20"} =>
    \A j \in 1..(Len(r.o) - 1) : ~Holds(Prop, [r EXCEPT !.o = [@ EXCEPT ![j] = r.o[j + 1], ![j + 1] = r.o[j]]])
Emitted == TLCGet("distinct") > 0 /\ ndJsonSerialize(IOEnv.OUT, FlattenSeq([g \in 1..Len(Groups) |-> SetToSeq(Groups[g])]))
=============================================================================
