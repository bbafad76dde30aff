------------------------------ MODULE WideTrace ------------------------------
(***************************************************************************)
(* Judges a log of calls on containers of any length up to half the        *)
(* machine integers, recorded from the real crate with all 64 bits.  Each  *)
(* line carries the length of the container before (L) and after (L2).     *)
(***************************************************************************)
EXTENDS WideOps, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Cfg == ndJsonDeserialize(IOEnv.FOCUS)[1]
FocusSet == { Cfg.ops[k] : k \in 1..Len(Cfg.ops) }
Mode == Cfg.mode
Most == 60      \* parts of a subdivision that are taken
Largest == <<1048575, 4194303, 4194303>>      \* 2^64 - 1

VARIABLE l
Init == l = 1
ev == Trace[l]
Small(n) == [j \in 1..Len(n) |-> n[j][3]]

NumsOk(op, exp, got) ==
  IF op \in {"cmp_i", "cmp_r"} /\ Len(got) = 3
  THEN exp[1] = got[1] /\ (exp[2] = One => got[2] = One) /\ exp[3] = got[3]
  ELSE exp = got

Iter ==
  LET o == IterW(ev.a[1], Small(ev.n))
      rest == Minus(o.hi, o.lo)
      k == Len(o.p) IN
  /\ ev.s = "ok" /\ ev.b = o.b /\ Len(ev.p) >= k
  /\ \A j \in 1..k : SameOrBothEmpty(o.p[j], ev.p[j])
  /\ Len(ev.i) = 2 /\ Le(ev.i[1], rest) /\ Le(rest, ev.i[2])
  \* the next three from the front and from the back
  /\ LET t == IF Lt(Num(2), rest) THEN 3 ELSE rest[3] IN
     SubSeq(ev.p, k + 1, Len(ev.p)) = [j \in 1..t |-> Ix(Add(o.lo, Num(j - 1)), "N")] \o [j \in 1..t |-> Ix(Minus(o.hi, Num(j)), "N")]

\* handles: twins must have the same length, everything else just is there
HandleOps == {"open", "close", "dup", "twin", "only", "crash"}
Handle ==
  /\ ev.op # "crash"
  /\ (ev.op = "twin" /\ ev.op \in FocusSet) => ev.s = IF ev.n[1] = ev.L THEN "ok" ELSE "err"
  /\ (ev.op \in {"dup", "only"} /\ ev.op \in FocusSet) => ev.s = "ok"

Exact ==
  IF ev.op \notin FocusSet THEN TRUE
  ELSE IF ev.op = "subdivide" THEN ev.s = "ok" /\ SubdivideOk(ev.a[1], ev.n[1], ev.p, Most) /\ ev.L2 = ev.L
  ELSE IF ev.op = "w_iter" THEN Iter /\ ev.L2 = ev.L
  ELSE LET o == Exp(ev.op, ev.a, ev.n, ev.m, ev.L) IN
       o.s = ev.s /\ o.p = ev.p /\ NumsOk(ev.op, o.i, ev.i) /\ o.b = ev.b /\ o.len = ev.L2

Trust == Le(ev.L, ev.L2) /\ \A k \in 1..Len(ev.p) : Trusted(ev.p[k], ev.L2)

Call == IF ev.op \in HandleOps THEN Handle ELSE IF Mode = "trust" THEN Trust ELSE Exact
Next == l <= Len(Trace) /\ l' = l + 1 /\ TRUE = Call
Spec == Init /\ [][Next]_l
Accepted_ == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
