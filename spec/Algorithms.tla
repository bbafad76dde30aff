------------------------------ MODULE Algorithms ------------------------------
(***************************************************************************)
(* The algorithms, one user comparison per step.                           *)
(*                                                                         *)
(* User code answers each comparison: honestly (a total order on keys),    *)
(* with anything it likes (a liar), or by panicking.  In every reachable   *)
(* state the positions used lie inside the slices and no element is lost   *)
(* or duplicated; every run ends; and how it ended is accepted by the      *)
(* contract (AlgoSpec) that also judges the calls recorded from the crate. *)
(* BUG names a planted mistake: the contract has to reject the run, so     *)
(* that no contract is true of everything.                                 *)
(***************************************************************************)
EXTENDS AlgoSpec, Runs, TLC, Json, IOUtils

Cfg == ndJsonDeserialize(IOEnv.FOCUS)[1]
Algs == SetOf(Cfg.algs)      \* algorithms looked at
N == Cfg.n                   \* longest slice
KMax == Cfg.keys             \* keys 0..KMax
Modes == SetOf(Cfg.modes)    \* "h" honest, "a" liar, "p" honest and panicking
BUG == Cfg.bug

\* below this length the quicksort leaves the work to the insertion sort
THRESH == 1

VARIABLES
  in,    \* the call: [op, pol, x, y, n]
  s, t,  \* identities in the two slices
  pc,    \* where we are
  v,     \* local variables
  c,     \* comparisons so far
  out    \* how it ended: [s, r]
vars == <<in, s, t, pc, v, c, out>>

NX == Len(in.x)
NY == Len(in.y)
At(q, i) == q[i + 1]                              \* positions count from 0
KeyIn(id) == KeyOf(in, id)
Seqs(S, n) == UNION { [1..k -> S] : k \in 0..n }
Keys0 == 0..KMax

V0 == [i |-> 0, j |-> 0, o |-> 0, lo |-> 0, hi |-> 0, st |-> <<>>, pv |-> 0, mx |-> 0]
\* the element types behind the identities differ, the algorithm does not: the operation names its family
Call(op, pol, x, y, n) == [op |-> op, pol |-> pol, k |-> 0, t |-> "ref", x |-> x, y |-> y, n |-> n]
Inputs(op, pol) ==
  CASE op \in Sorts \union {"heapify"} -> { Call(op, pol, x, <<>>, <<>>) : x \in Seqs(Keys0, N) }
    [] op = "is2" -> { Call(op, pol, x, [j \in 1..Len(x) |-> 0], <<>>) : x \in Seqs(Keys0, N) }
                     \union { Call(op, pol, [j \in 1..a |-> a - j], [j \in 1..b |-> 0], <<>>) : a \in 0..2, b \in 0..2 }
    [] op \in Merges -> UNION { { Call(op, pol, x, [j \in 1..b |-> 9], <<le>>) : le \in 0..(Len(x) + 1), b \in {Len(x), Len(x) - 1, Len(x) + 1} } : x \in Seqs(Keys0, N) \ { <<>> } }
    [] op \in Lowers \union Binaries -> { Call(op, pol, x, <<>>, <<0, Len(x), g>>) : x \in { q \in Seqs({1, 3, 5}, N + 2) : Sorted(q) }, g \in 0..6 }

Init ==
  /\ \E op \in Algs, pol \in Modes : in \in Inputs(op, pol)
  /\ s = Ident(NX) /\ t = IdentY(in)
  /\ pc = "start" /\ v = V0 /\ c = 0 /\ out = [s |-> "", r |-> <<>>]

(* ---- moves (no user code runs inside them) ---- *)
Swapped(q, i, j) == [q EXCEPT ![i + 1] = q[j + 1], ![j + 1] = q[i + 1]]
\* the last element of [lo, hi] comes first
Rotated(q, lo, hi) == [k \in 1..Len(q) |-> IF k = lo + 1 THEN q[hi + 1] ELSE IF k > lo + 1 /\ k <= hi + 1 THEN q[k - 1] ELSE q[k]]

(* ---- comparisons ---- *)
Sign(a, b) == IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1
\* what user code may answer when asked to compare identity a with b (or with the target)
Answers(ka, kb) == IF in.pol = "a" THEN {-1, 0, 1} ELSE { Sign(ka, kb) }
Ask(a, b) == Answers(KeyIn(a), KeyIn(b))
Asking == pc \notin {"start", "done", "panic"}
Panic == /\ in.pol = "p" /\ Asking /\ pc' = "panic" /\ out' = [s |-> "panic", r |-> <<>>] /\ c' = c + 1 /\ UNCHANGED <<in, s, t, v>>
End(status, r) == pc' = "done" /\ out' = [s |-> status, r |-> r]
Stay == UNCHANGED <<in, out>>

(* ---- insertion sorts that scan back ---- *)
Scanners == Stable \union {"is2"}
IsStart == /\ pc = "start" /\ in.op \in Scanners
           /\ IF in.op = "is2" /\ NX # NY THEN End("panic", <<>>) /\ UNCHANGED v
              ELSE IF NX = 0 THEN End("ok", <<>>) /\ UNCHANGED v
              ELSE pc' = "is" /\ v' = [v EXCEPT !.i = 0, !.j = 0] /\ UNCHANGED out
           /\ UNCHANGED <<in, s, t, c>>
Insert_(lo) ==
  /\ s' = Rotated(s, lo, v.i)
  /\ t' = IF in.op = "is2" THEN (IF BUG = "is2-short" /\ lo = 0 THEN t ELSE Rotated(t, lo, v.i)) ELSE t
  /\ IF v.i + 1 = NX THEN End("ok", <<>>) /\ UNCHANGED v ELSE pc' = "is" /\ v' = [v EXCEPT !.i = v.i + 1, !.j = v.i + 1] /\ UNCHANGED out
IsStep ==
  /\ pc = "is"
  /\ IF v.j = 0 THEN Insert_(0) /\ UNCHANGED c
     ELSE \E a \in Ask(At(s, v.i), At(s, v.j - 1)) :
            /\ c' = c + 1
            /\ LET to == ScanBack(v.i, v.j, a = -1 \/ (BUG = "is-le" /\ a = 0)) IN
               IF to.pc = "is" THEN v' = [v EXCEPT !.j = to.j] /\ UNCHANGED <<s, t, pc, out>> ELSE Insert_(to.j)
  /\ UNCHANGED in

(* ---- insertion sort that searches ---- *)
PlStart == /\ pc = "start" /\ in.op = "is_plower"
           /\ IF NX = 0 THEN End("ok", <<>>) /\ UNCHANGED v ELSE pc' = "pl" /\ v' = [v EXCEPT !.i = 0, !.lo = 0, !.hi = 0] /\ UNCHANGED out
           /\ UNCHANGED <<in, s, t, c>>
Mid == Middle(v.lo, v.hi)
Narrowed(a) == LET to == Narrow(v.lo, v.hi, a) IN [v EXCEPT !.lo = to.i, !.hi = to.j]
PlStep ==
  /\ pc = "pl"
  /\ IF v.lo = v.hi
     THEN /\ s' = Rotated(s, v.lo, v.i) /\ UNCHANGED <<t, c>>
          /\ IF v.i + 1 = NX THEN End("ok", <<>>) /\ UNCHANGED v
             ELSE pc' = "pl" /\ v' = [v EXCEPT !.i = v.i + 1, !.lo = 0, !.hi = v.i + 1] /\ UNCHANGED out
     ELSE \E a \in Ask(At(s, Mid), At(s, v.i)) :
            /\ c' = c + 1
            /\ v' = IF a = -1 /\ BUG = "pl-stuck" THEN [v EXCEPT !.lo = Mid] ELSE Narrowed(a = -1)
            /\ UNCHANGED <<s, t, pc, out>>
  /\ UNCHANGED in

(* ---- quicksort: v.st is the stack of sections still to sort, deepest first ---- *)
Quick == {"qs_range", "qs_prange", "qs_bounds"}
QsStart == /\ pc = "start" /\ in.op \in Quick
           /\ pc' = "qs" /\ v' = [v EXCEPT !.st = << <<0, NX>> >>] /\ UNCHANGED <<in, s, t, c, out>>
QsTop == Head(v.st)
\* short sections need no comparison with THRESH = 1
QsNext ==
  /\ pc = "qs"
  /\ IF v.st = <<>> THEN End("ok", <<>>) /\ UNCHANGED v
     ELSE IF QsTop[2] - QsTop[1] <= THRESH THEN v' = [v EXCEPT !.st = Tail(@)] /\ UNCHANGED <<pc, out>>
     ELSE /\ pc' = "m1" /\ v' = [v EXCEPT !.lo = QsTop[1], !.hi = QsTop[2] - 1, !.mx = IF Len(v.st) > @ THEN Len(v.st) ELSE @] /\ UNCHANGED out
  /\ UNCHANGED <<in, s, t, c>>
QL == v.lo
QM == UpperMiddle(v.lo, v.hi)
QR == v.hi
Cmp(a, b, P(_)) == \E o \in Ask(At(s, a), At(s, b)) : c' = c + 1 /\ P(o) /\ UNCHANGED in
Pivot(p) == /\ s' = Swapped(s, v.lo, p) /\ pc' = "pa" /\ v' = [v EXCEPT !.i = v.lo, !.j = v.hi, !.pv = v.lo] /\ UNCHANGED <<t, out>>
Go(where) == pc' = where /\ UNCHANGED <<s, t, v, out>>
QsM1 == pc = "m1" /\ Cmp(QL, QM, LAMBDA o : IF o <= 0 THEN Go("m2") ELSE Go("m3"))
QsM2 == pc = "m2" /\ Cmp(QM, QR, LAMBDA o : IF o <= 0 THEN Pivot(QM) ELSE Go("m3"))
QsM3 == pc = "m3" /\ Cmp(QM, QL, LAMBDA o : IF o <= 0 THEN Go("m4") ELSE Pivot(QR))
QsM4 == pc = "m4" /\ Cmp(QL, QR, LAMBDA o : IF o <= 0 THEN Pivot(QL) ELSE Pivot(QR))
\* the section is cut at v.i
Cut == LET cut == IF BUG = "qs-cut" THEN v.i + 1 ELSE v.i IN
       /\ pc' = "qs" /\ v' = [v EXCEPT !.st = << <<v.lo, cut>>, <<IF BUG = "qs-lost" THEN cut + 1 ELSE cut, v.hi + 1>> >> \o Tail(@)] /\ UNCHANGED <<t, out>>
Scan(to) == IF to.pc = "cut" THEN Cut ELSE pc' = to.pc /\ v' = [v EXCEPT !.i = to.i, !.j = to.j] /\ UNCHANGED <<t, out>>
QsA == pc = "pa" /\ Cmp(v.i, v.pv, LAMBDA o : Scan(FromLeft(v.i, v.j, o >= 0)) /\ UNCHANGED s)
QsB == pc = "pb" /\ Cmp(v.j, v.pv, LAMBDA o : Scan(FromRight(v.i, v.j, o <= 0)) /\ s' = IF o <= 0 THEN Swapped(s, v.i, v.j) ELSE s)
\* (no comparison: the two loops meet)
QsC == pc = "pc" /\ Scan(Forth(v.i, v.j)) /\ UNCHANGED <<in, s, c>>

(* ---- merging through a buffer ---- *)
LE == in.n[1]
Buf == MIN(LE, NY)
BlockSwap(a, b, k) == /\ s' = [j \in 1..NX |-> IF j > a /\ j <= a + k THEN t[b + j - a] ELSE s[j]]
                      /\ t' = [j \in 1..NY |-> IF j > b /\ j <= b + k THEN s[a + j - b] ELSE t[j]]
MgStart ==
  /\ pc = "start" /\ in.op \in Merges
  /\ IF LE > NX \/ LE > NY THEN End("err", <<>>) /\ UNCHANGED <<s, t, v>>
     ELSE IF LE = 0 \/ LE = NX THEN End("ok", <<>>) /\ UNCHANGED <<s, t, v>>
     ELSE /\ BlockSwap(0, 0, LE)
          /\ pc' = "mg" /\ v' = [v EXCEPT !.i = 0, !.o = 0, !.j = LE] /\ UNCHANGED out
  /\ UNCHANGED <<in, c>>
MgStep ==
  /\ pc = "mg"
  /\ \E a \in Ask(At(t, v.i), At(s, v.j)) :
       LET left == a = -1 \/ (a = 0 /\ BUG # "mg-lt")
           to == Merge(v.i, v.j, v.o, LE, NX, left)
           s1 == IF left THEN [s EXCEPT ![v.o + 1] = t[v.i + 1]] ELSE Swapped(s, v.j, v.o)
           t1 == IF left THEN [t EXCEPT ![v.i + 1] = s[v.o + 1]] ELSE t IN
       /\ c' = c + 1
       /\ IF to.pc = "mg" THEN s' = s1 /\ t' = t1 /\ v' = [v EXCEPT !.i = to.i, !.j = to.j, !.o = to.o] /\ UNCHANGED <<pc, out>>
          ELSE IF to.pc = "done" THEN s' = s1 /\ t' = t1 /\ End("ok", <<>>) /\ UNCHANGED v
          \* the right part is used up: what is left of the buffer goes behind
          ELSE LET k == MIN(LE - to.i, NX - to.o) IN
               /\ s' = [q \in 1..NX |-> IF q > to.o /\ q <= to.o + k THEN t1[to.i + q - to.o] ELSE s1[q]]
               /\ t' = [q \in 1..NY |-> IF q > to.i /\ q <= to.i + k THEN s1[to.o + q - to.i] ELSE t1[q]]
               /\ IF BUG = "mg-rest" THEN FALSE ELSE End("ok", <<>>) /\ UNCHANGED v
  /\ UNCHANGED in

(* ---- heap ---- *)
\* v.i: element being sifted started at, v.j: where it is now, v.o: the child chosen
HpStart ==
  /\ pc = "start" /\ in.op = "heapify"
  /\ IF NX \div 2 = 0 THEN End("ok", <<>>) /\ UNCHANGED v
     ELSE LET f == (NX \div 2) - 1 IN pc' = "h1" /\ v' = [v EXCEPT !.i = f, !.j = f] /\ UNCHANGED out
  /\ UNCHANGED <<in, s, t, c>>
NextSift(w) == IF v.i = 0 THEN End("ok", <<>>) /\ v' = w ELSE pc' = "h1" /\ v' = [w EXCEPT !.i = v.i - 1, !.j = v.i - 1] /\ UNCHANGED out
Child == LeftChild(v.j)
\* choose the child (no comparison when there are fewer than two)
HpChoose ==
  /\ pc = "h1"
  /\ IF Child >= NX THEN NextSift(v) /\ UNCHANGED <<s, t, c>>
     ELSE IF Child + 1 >= NX THEN pc' = "h2" /\ v' = [v EXCEPT !.o = Child] /\ UNCHANGED <<s, t, c, out>>
     ELSE \E a \in Ask(At(s, Child), At(s, Child + 1)) :
            c' = c + 1 /\ pc' = "h2" /\ v' = [v EXCEPT !.o = IF a = 1 /\ BUG # "hp-left" THEN Child + 1 ELSE Child] /\ UNCHANGED <<s, t, out>>
  /\ UNCHANGED in
HpSift ==
  /\ pc = "h2"
  /\ \E a \in Ask(At(s, v.j), At(s, v.o)) :
       /\ c' = c + 1
       /\ IF a <= 0 THEN NextSift(v) /\ UNCHANGED <<s, t>>
          ELSE /\ s' = Swapped(s, v.j, v.o) /\ UNCHANGED t
               /\ IF BUG = "hp-once" THEN NextSift(v) ELSE pc' = "h1" /\ v' = [v EXCEPT !.j = v.o] /\ UNCHANGED out
  /\ UNCHANGED in

(* ---- searching ---- *)
SeStart == /\ pc = "start" /\ in.op \in Lowers \union Binaries
           /\ pc' = "se" /\ v' = [v EXCEPT !.lo = in.n[1], !.hi = in.n[2]] /\ UNCHANGED <<in, s, t, c, out>>
SeStep ==
  /\ pc = "se"
  /\ IF v.lo = v.hi THEN End(IF in.op \in Lowers THEN "ok" ELSE "absent", <<v.lo>>) /\ UNCHANGED <<v, c>>
     ELSE \E a \in Answers(KeyIn(At(s, Mid)), in.n[3]) :
            /\ c' = c + 1
            /\ IF in.op \in Binaries /\ a = 0 /\ BUG # "se-miss" THEN End("found", <<Mid>>) /\ UNCHANGED v
               ELSE /\ v' = IF BUG = "se-slow" /\ a # -1 /\ v.hi - v.lo > 1 THEN [v EXCEPT !.hi = @ - 1] ELSE Narrowed(a = -1 \/ (BUG = "lb-le" /\ a = 0))
                    /\ UNCHANGED <<pc, out>>
  /\ UNCHANGED <<in, s, t>>

Step == IsStart \/ IsStep \/ PlStart \/ PlStep \/ QsStart \/ QsNext \/ QsM1 \/ QsM2 \/ QsM3 \/ QsM4 \/ QsA \/ QsB \/ QsC
        \/ MgStart \/ MgStep \/ HpStart \/ HpChoose \/ HpSift \/ SeStart \/ SeStep
Next == Step \/ Panic
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

(* ---- what holds in every state ---- *)
\* whatever user code answers, the positions in use are inside
Inside ==
  CASE pc = "is" -> v.j <= v.i /\ v.i < NX
    [] pc = "pl" -> v.lo <= v.hi /\ v.hi <= v.i /\ v.i < NX
    [] pc \in {"m1", "m2", "m3", "m4"} -> v.lo < v.hi /\ v.hi < NX /\ QM <= QR
    [] pc \in {"pa", "pb", "pc"} -> v.lo <= v.i /\ v.i <= v.j /\ v.j <= v.hi /\ v.pv = v.lo
    [] pc = "mg" -> v.i < LE /\ v.o < v.j /\ v.j < NX /\ v.o = v.i + (v.j - LE)
    [] pc \in {"h1", "h2"} -> v.i <= v.j /\ v.j < NX /\ (pc = "h2" => v.j < v.o /\ v.o < NX)
    [] pc = "se" -> in.n[1] <= v.lo /\ v.lo <= v.hi /\ v.hi <= in.n[2]
    [] OTHER -> TRUE
\* each element once, also when user code is being asked
Kept == IsPerm(s \o t, 1..(NX + NY))
\* the sections still to be sorted are disjoint, in order, and nothing outside them is out of place
Sections == in.op \in Quick => \A k \in 1..(Len(v.st) - 1) : v.st[k][2] <= v.st[k + 1][1]
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2((n + 1) \div 2)
Event == [op |-> in.op, pol |-> in.pol, k |-> IF in.pol = "p" /\ out.s # "panic" THEN c + 1 ELSE c, t |-> "ref", x |-> in.x, y |-> in.y, n |-> in.n, s |-> out.s,
          o |-> s, o2 |-> t, r |-> out.r, q |-> <<>>, c |-> c, lg |-> Log2(NX + 1), g |-> <<TRUE, TRUE, TRUE>>]
\* how it ends is what the contract promises
Contract == pc \in {"done", "panic"} => \A p \in {"C16", "C17", "C18", "C19", "C20", "C21"} : Holds(p, Event)
\* it ends, whatever the answers (a quicksort that is lied to may cut off nothing, for ever)
Ends == <>(pc \in {"done", "panic"} \/ (in.op \in Quick /\ in.pol = "a"))
\* the stack of an honest quicksort
Depth == in.op \in Quick /\ in.pol # "a" => Len(v.st) <= NX + 1
\* questions are not asked for ever
Budget == ~(in.op \in Quick /\ in.pol = "a") => c <= 2 * NX * NX + 6 * NX + 4
\* a liar can keep the quicksort going for ever: only the beginnings of such runs are looked at
Beginnings == in.op \in Quick /\ in.pol = "a" => c < 3 * N
=============================================================================
