------------------------------- MODULE Indexing -------------------------------
(***************************************************************************)
(* The state machine of one indexing scope: a container over some storage, *)
(* its clones and twins, and the trusted positions a safe program holds.   *)
(* Every public operation is one atomic step (the crate is sequential; the *)
(* linearization point is the return of the call).                         *)
(***************************************************************************)
EXTENDS Laws, TLC

CONSTANTS MaxLen,      \* longest initial storage
          MaxGrow,     \* how many elements may be added
          PoolMax,     \* how many positions the program keeps (0: all of them)
          MaxHandles,
          MaxFresh,    \* elements ever created (0: unbounded)
          OpSet,       \* operations explored
          Kinds0       \* storage kinds: subset of {"shared", "excl", "grow"}

VARIABLES st,          \* storages: sequence of element sequences
          hd,          \* handles: [s: storage, excl, only, grow, fixed]
          pool,        \* trusted positions the program holds
          fresh,       \* next element identity
          last         \* the last call (observation only; hidden by VIEW)
vars == <<st, hd, pool, fresh, last>>
view == <<st, hd, pool, fresh>>

NoCall == [op |-> "open", h |-> 1, a |-> <<>>, n |-> <<>>, m |-> <<>>, e |-> <<>>, c |-> <<>>, o |-> Out("ok", <<>>, <<>>, <<>>, <<>>, <<>>)]

Init ==
  \E L \in 0..MaxLen, k \in Kinds0 :
    /\ st = << [j \in 1..L |-> j] >>
    /\ hd = << [s |-> 1, excl |-> k # "shared", only |-> FALSE, grow |-> k = "grow", fixed |-> k # "grow"] >>
    /\ pool = {}
    /\ fresh = L + 1
    /\ last = NoCall

\* the program may forget positions it no longer needs
Keep(S) == IF PoolMax = 0 THEN { S } ELSE IF Cardinality(S) <= PoolMax THEN { S } ELSE { T \in SUBSET S : Cardinality(T) = PoolMax }

Results(o) == { o.p[k] : k \in 1..Len(o.p) }

\* Subdivision has no single outcome; the model uses the one the crate documents.
SubPart(x, k) == IF k > Len_(x) THEN <<>>
                 ELSE [j \in 1..k |-> Rg(Lo(x) + ((j - 1) * Len_(x)) \div k, Lo(x) + (j * Len_(x)) \div k, "N")]
Outcome(op, a, n, m, e, c) ==
  IF op \in {"subdivide", "subdivide_x"} THEN Out("ok", SubPart(a[1], n[1]), <<>>, <<>>, <<TRUE, TRUE>>, c) ELSE Exp(op, a, n, m, e, c)

Room(k) == MaxFresh = 0 \/ fresh + k <= MaxFresh + 1

Call(h, op, a, n, m) ==
  LET H == hd[h]
      c == st[H.s]
      e == IF op \in {"set", "push", "insert"} THEN <<fresh>> ELSE <<>>
      o == Outcome(op, a, n, m, e, c) IN
  /\ Admits(H, op)
  /\ op \in {"push", "insert"} => Len(c) < MaxLen + MaxGrow
  /\ e # <<>> => Room(1)
  /\ st' = [st EXCEPT ![H.s] = o.c]
  /\ hd' = hd
  /\ pool' \in Keep(pool \union Results(o))
  /\ fresh' = IF e = <<>> THEN fresh ELSE fresh + 1
  /\ last' = [op |-> op, h |-> h, a |-> a, n |-> n, m |-> m, e |-> e, c |-> c, o |-> o]

AnyCall ==
  \E h \in 1..Len(hd), op \in OpSet :
    \E a \in ArgSeqs(op, pool) :
      /\ SameType(op, a)
      /\ \E n \in NumSeqs(op, Len(st[1])), m \in AnsSeqs(op, Len(st[1])) : Call(h, op, a, n, m)

Note(op, h, n) == last' = [NoCall EXCEPT !.op = op, !.h = h, !.n = n]

OnlyIndex ==
  /\ "only" \in OpSet
  /\ \E h \in 1..Len(hd) :
       /\ ~hd[h].only
       /\ hd' = [hd EXCEPT ![h].only = TRUE]
       \* growth may move the storage: pointers die with the pointer mode
       /\ pool' = IF hd[h].grow THEN { x \in pool : K(x) \in {"I", "R"} } ELSE pool
       /\ Note("only", h, <<>>)
  /\ UNCHANGED <<st, fresh>>

Clone ==
  /\ "dup" \in OpSet
  /\ Len(hd) < MaxHandles
  /\ \E h \in 1..Len(hd) :
       /\ hd[h].fixed /\ ~hd[h].excl
       /\ hd' = Append(hd, hd[h])
       /\ Note("dup", h, <<>>)
  /\ UNCHANGED <<st, pool, fresh>>

\* make_twin with a storage of length k: admitted exactly if k is the common length
Twin ==
  /\ "twin" \in OpSet
  /\ Len(hd) < MaxHandles
  /\ \E h \in 1..Len(hd), k \in { Max(0, Len(st[1]) - 1), Len(st[1]), Len(st[1]) + 1 } :
       /\ hd[h].fixed
       /\ Room(k)
       /\ IF k = Len(st[hd[h].s])
          THEN /\ st' = Append(st, [j \in 1..k |-> fresh + j - 1])
               /\ hd' = Append(hd, [s |-> Len(st) + 1, excl |-> TRUE, only |-> TRUE, grow |-> FALSE, fixed |-> TRUE])
          ELSE UNCHANGED <<st, hd>>
       /\ fresh' = fresh + k
       /\ Note("twin", h, <<k>>)
  /\ UNCHANGED pool

Next == AnyCall \/ OnlyIndex \/ Clone \/ Twin
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK ==
  /\ \A x \in pool : K(x) \in Kinds /\ Pf(x) \in Proofs /\ (IsIdx(x) => Lo(x) = Hi(x))
  /\ \A h \in 1..Len(hd) : hd[h].s \in 1..Len(st)

\* C01: everything the program holds is inside -- of every storage of the brand
TrustedInBounds == \A x \in pool : \A s \in 1..Len(st) : Trusted(x, Len(st[s]))
\* C10: all containers of a brand have the same length
TwinsEqualLength == \A s \in 1..Len(st) : Len(st[s]) = Len(st[1])
\* C18/C08: every element exists exactly once
NoDuplicates == \A s, t \in 1..Len(st) : \A i \in 1..Len(st[s]), j \in 1..Len(st[t]) : st[s][i] = st[t][j] => s = t /\ i = j

\* the listed laws hold of every step
StepLaws == [][ last'.op \in AllOps /\ last' # last => Laws(last') ]_vars
\* C09: the storage never shrinks;  C02/C10: a call changes only its own storage
NeverShrinks == [][ \A s \in 1..Len(st) : Len(st'[s]) >= Len(st[s]) ]_vars
OwnStorage == [][ last'.op \in AllOps => \A s \in 1..Len(st) : s # hd[last'.h].s => st'[s] = st[s] ]_vars
\* C12 by design: shared storage is never written
SharedIsConstant == [][ ~hd[1].excl => st'[1] = st[1] ]_vars

-----------------------------------------------------------------------------
(* Refinement: whatever the operations compute, the scope is only ever a   *)
(* "trusted access" machine (module TrustedAccess): positions come out in  *)
(* bounds, storage is changed by permutation or by growth.                 *)
TA == INSTANCE TrustedAccess WITH lens <- [s \in 1..Len(st) |-> Len(st[s])], held <- pool
RefinesTrustedAccess == TA!Spec
=============================================================================
