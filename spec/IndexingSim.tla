------------------------------ MODULE IndexingSim ------------------------------
(***************************************************************************)
(* Random behaviours of Indexing.tla (tlc -simulate), every invariant and  *)
(* law checked along the way; at depth Depth the behaviour is printed as   *)
(* JSON and later stepped through the real crate.                          *)
(***************************************************************************)
EXTENDS Indexing, Json, IOUtils

Cfg == ndJsonDeserialize(IOEnv.FOCUS)[1]
SimOps == { Cfg.ops[k] : k \in 1..Len(Cfg.ops) } \union { Cfg.base[k] : k \in 1..Len(Cfg.base) }
FocusOps == { Cfg.ops[k] : k \in 1..Len(Cfg.ops) }
Depth == Cfg.depth

VARIABLES hist, start
simvars == <<st, hd, pool, fresh, last, hist, start>>

SimInit == Init /\ hist = <<>> /\ start = [len |-> Len(st[1]), excl |-> hd[1].excl, grow |-> hd[1].grow]

HOps == {"only", "dup", "twin"}
Pick(S) == { RandomElement(S) }
Has(ch) == \E x \in pool : Fits(ch, x)
Ready(op, h) == /\ op \in HOps \/ Admits(hd[h], op)
                /\ \A k \in 1..Len(Sg(op)) : Has(Sg(op)[k])
                /\ op \in {"push", "insert"} => Len(st[hd[h].s]) < MaxLen + MaxGrow
                /\ op = "only" => \E j \in 1..Len(hd) : ~hd[j].only
                /\ op = "dup" => Len(hd) < MaxHandles /\ \E j \in 1..Len(hd) : hd[j].fixed /\ ~hd[j].excl
                /\ op = "twin" => Len(hd) < MaxHandles /\ \E j \in 1..Len(hd) : hd[j].fixed
                /\ op \in {"ord_i", "ord_r", "q_eq"} => { a \in ArgSeqs(op, pool) : SameType(op, a) } # {}
Step ==
  \E h \in Pick(1..Len(hd)) :
    \E f \in Pick(1..3) :
      LET S == { o \in SimOps : Ready(o, h) }
          F == S \intersect FocusOps IN
      \E op \in Pick(IF f = 1 \/ F = {} THEN S ELSE F) :
        IF op = "only" THEN OnlyIndex
        ELSE IF op = "dup" THEN Clone
        ELSE IF op = "twin" THEN Twin
        ELSE \E a \in Pick({ a \in ArgSeqs(op, pool) : SameType(op, a) }),
                n \in Pick(NumSeqs(op, Len(st[1]))), m \in Pick(AnsSeqs(op, Len(st[1]))) : Call(h, op, a, n, m)

Rec == [op |-> last'.op, h |-> last'.h, a |-> last'.a, n |-> last'.n, m |-> last'.m]
SimNext == Len(hist) < Depth /\ Step /\ hist' = Append(hist, Rec) /\ start' = start
SimSpec == SimInit /\ [][SimNext]_simvars
Dump == Len(hist) = Depth => PrintT("BEH " \o ToJson([start |-> start, calls |-> hist]))
=============================================================================
