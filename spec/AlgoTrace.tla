------------------------------- MODULE AlgoTrace -------------------------------
(***************************************************************************)
(* Judges a log of algorithm calls recorded from the real crate: every     *)
(* line must satisfy the contract of the property under check.             *)
(***************************************************************************)
EXTENDS AlgoSpec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == ndJsonDeserialize(IOEnv.FOCUS)[1].prop
VARIABLE l
Init == l = 1
ev == Trace[l]
Next == l <= Len(Trace) /\ l' = l + 1 /\ ev.op # "crash" /\ TRUE = Holds(Prop, ev)
Spec == Init /\ [][Next]_l
Accepted_ == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
