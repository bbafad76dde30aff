---------------------------- MODULE IndexingTrace ----------------------------
(***************************************************************************)
(* Trace validation: is a log recorded from the real crate a behaviour of  *)
(* the specification?  One event per public call.  Calls in Focus are      *)
(* judged exactly (Ops!OutcomeOk); the outcome of any other call is        *)
(* adopted from the log, so that each property is decided by its own       *)
(* operations.  A log is accepted iff every line can be consumed.          *)
(***************************************************************************)
EXTENDS Ops, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Cfg == ndJsonDeserialize(IOEnv.FOCUS)[1]
FocusSet == { Cfg.ops[k] : k \in 1..Len(Cfg.ops) }     \* the calls that are judged
Mode == Cfg.mode                                       \* "exact" | "trust" | "conserve"

VARIABLES l,      \* next line
          st,     \* storages: sequence of element sequences
          hd,     \* handles: the storage each one stands for
          iss     \* positions issued for the container's brand (mode "trust")
vars == <<l, st, hd, iss>>

Init == l = 1 /\ st = <<>> /\ hd = <<>> /\ iss = {}

ev == Trace[l]
\* the storages after the call, as observed
After == IF ev.bs = <<>> THEN st ELSE ev.bs

SetOf(s) == { s[k] : k \in 1..Len(s) }
CountIn(s, x) == Cardinality({ k \in 1..Len(s) : s[k] = x })
\* the same elements, each as often (zero sized elements all look alike)
SameElements(s, t) ==
  \/ s = t
  \/ LET S == SetOf(s) IN
     /\ Len(s) = Len(t) /\ S = SetOf(t)
     /\ Cardinality(S) = Len(s) \/ \A x \in S : CountIn(s, x) = CountIn(t, x)

HandleOps == {"open", "close", "dup", "twin", "only", "crash"}

Open ==
  /\ ev.op = "open"
  /\ st' = ev.bs /\ hd' = <<1>> /\ iss' = {}

\* the harness' own look at the storages when the scope ends: contents as the
\* specification has them, guard elements intact, every element dropped once
Close ==
  /\ ev.op = "close"
  /\ TRUE = ("close" \in FocusSet => ev.b = <<TRUE, TRUE, TRUE>> /\ ev.bs = st)
  /\ st' = <<>> /\ hd' = <<>> /\ iss' = {}

Dup ==
  /\ ev.op = "dup"
  /\ "dup" \in FocusSet => ev.s = "ok"
  /\ ev.s = "ok" => ev.i = <<Len(hd) + 1>>
  /\ hd' = IF ev.s = "ok" THEN Append(hd, hd[ev.c]) ELSE hd
  /\ UNCHANGED <<st, iss>>

\* C10: a twin is admitted iff its storage has the length of the original
Twin ==
  /\ ev.op = "twin"
  /\ "twin" \in FocusSet => ev.s = IF ev.n[1] = Len(st[hd[ev.c]]) THEN "ok" ELSE "err"
  /\ IF ev.s = "ok"
     THEN /\ Len(ev.bs) = Len(st) + 1
          /\ "twin" \in FocusSet => SubSeq(ev.bs, 1, Len(st)) = st
          /\ st' = ev.bs /\ hd' = Append(hd, Len(ev.bs))
     ELSE st' = After /\ hd' = hd
  /\ UNCHANGED iss

Only ==
  /\ ev.op = "only"
  /\ "only" \in FocusSet => ev.s = "ok"
  /\ UNCHANGED <<st, hd, iss>>

\* a call of the harness never came back (signal, abort, endless loop)
Crash == ev.op = "crash" /\ FALSE

LenOf(c) == Len(st[hd[c]])

Exact ==
  IF ev.op \in FocusSet
  THEN LET c2 == After[hd[ev.c]] IN
       /\ Len(After) = Len(st)
       /\ OutcomeOk(ev, st[hd[ev.c]], c2)
       /\ \A k \in 1..Len(st) : k # hd[ev.c] => After[k] = st[k]   \* no other storage is touched
  ELSE TRUE

\* C01: whatever a call returns lies inside the container, and stays inside
Trust ==
  /\ \A k \in 1..Len(ev.p) : Trusted(ev.p[k], Len(After[1]))
  /\ Len(After[1]) >= Len(st[1])
  \* what is reached through a trusted position is what the container holds there
  /\ ev.op \in {"get", "get_q"} /\ ev.s = "ok" => ev.l = <<<<At(st[hd[ev.c]], Lo(ev.a[1]))>>>>
  /\ ev.op \in {"get_r", "get_p"} /\ ev.s = "ok" => ev.l = <<Sub(st[hd[ev.c]], Lo(ev.a[1]), Hi(ev.a[1]))>>
\* (long iterations are judged when they happen and then forgotten: a container never shrinks)
NewIss == IF Mode = "trust" /\ Len(ev.p) <= 200 THEN { x \in iss \union { ev.p[k] : k \in 1..Len(ev.p) } : TRUE } ELSE iss

\* C18: whatever happens, elements are neither lost nor duplicated
Conserve ==
  ev.op \in FocusSet =>
    /\ ev.op \notin {"push", "insert", "set"} => \A k \in 1..Len(st) : SameElements(st[k], After[k])
    /\ Len(After) = Len(st)

Call ==
  /\ ev.op \notin HandleOps
  \* (compared with TRUE: TLC then evaluates it as a value, not as an action,
  \* which would put one stack frame on every element of a quantifier)
  /\ TRUE = (CASE Mode = "exact" -> Exact
                [] Mode = "trust" -> Trust
                [] Mode = "conserve" -> Conserve)
  /\ st' = After /\ hd' = hd
  /\ iss' = NewIss

Next == l <= Len(Trace) /\ l' = l + 1 /\ (Open \/ Close \/ Dup \/ Twin \/ Only \/ Crash \/ Call)
Spec == Init /\ [][Next]_vars

\* issued positions remain inside for the rest of the scope, also after growth
IssuedTrusted == iss # {} => \A x \in iss : Trusted(x, Len(st[1]))
Accepted_ == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
