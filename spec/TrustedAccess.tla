----------------------------- MODULE TrustedAccess -----------------------------
(***************************************************************************)
(* The guarantee the crate exists to provide (C01), and nothing else: a    *)
(* program holds positions; each is valid for every storage of the brand   *)
(* at all times; storages of a brand have one length and only grow.        *)
(***************************************************************************)
EXTENDS Particles
VARIABLES lens, held

AllValid(S, ls) == \A x \in S : \A s \in 1..Len(ls) : Trusted(x, ls[s])
Init == Len(lens) = 1 /\ lens[1] >= 0 /\ held = {}
Next ==
  /\ AllValid(held', lens')
  /\ Len(lens') >= Len(lens)
  /\ \A s \in 1..Len(lens) : lens'[s] >= lens[s]
  /\ \A s, t \in 1..Len(lens') : lens'[s] = lens'[t]
Spec == Init /\ [][Next]_<<lens, held>>
=============================================================================
