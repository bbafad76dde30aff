------------------------------ MODULE Particles ------------------------------
(***************************************************************************)
(* Trusted positions ("particles") of bluss/indexing.                      *)
(*                                                                         *)
(* A particle is <<kind, lo, hi, proof>>:                                  *)
(*   kind  "I" Index   "R" Range        (index representation)             *)
(*         "Q" PIndex  "P" PRange  "S" PSlice   (pointer representations)  *)
(*   lo,hi element positions; an index has lo = hi                         *)
(*   proof "N" NonEmpty (dereferenceable)  "U" Unknown (may be an edge)    *)
(* It is the observable value of the Rust type Kind<'id, [T,] Proof>.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CAP == 1073741824   \* 2^30: every number from here on is reported as CAP

IdxKinds == {"I", "Q"}
RngKinds == {"R", "P", "S"}
Kinds    == IdxKinds \union RngKinds
Proofs   == {"N", "U"}

K(x)  == x[1]
Lo(x) == x[2]
Hi(x) == x[3]
Pf(x) == x[4]
Len_(x) == Hi(x) - Lo(x)          \* the number of elements of a range
IsIdx(x) == K(x) \in IdxKinds

Ix(i, p)    == <<"I", i, i, p>>
Rg(a, b, p) == <<"R", a, b, p>>

\* The type of a joined range: nonempty if either part is (proof.rs, ProofAdd)
Sum(p, q) == IF p = "N" \/ q = "N" THEN "N" ELSE "U"

Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b

(***************************************************************************)
(* The trust condition (C01): what every particle of a container of length *)
(* L must satisfy so that unchecked access through it stays inside.        *)
(***************************************************************************)
InBounds(x, L) == 0 <= Lo(x) /\ Lo(x) <= Hi(x) /\ Hi(x) <= L
Truthful(x, L) == Pf(x) = "N" => IF IsIdx(x) THEN Lo(x) < L ELSE Lo(x) < Hi(x)
Trusted(x, L)  == InBounds(x, L) /\ Truthful(x, L)

\* every well formed particle of the given kinds for a container of length L
AllParts(kinds, L) ==
  { x \in { <<k, a, b, p>> : k \in kinds, a \in 0..L, b \in 0..L, p \in Proofs } :
      /\ Trusted(x, L)
      /\ IsIdx(x) => Lo(x) = Hi(x) }

\* contents: a 1-indexed sequence; position i is element i+1
At(c, i)      == c[i + 1]
Sub(c, a, b)  == SubSeq(c, a + 1, b)
Rev(s)        == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RevIn(c, a, b) == [k \in 1..Len(c) |-> IF k > a /\ k <= b THEN c[a + 1 + b - k] ELSE c[k]]
Swap(c, i, j) == [c EXCEPT ![i + 1] = c[j + 1], ![j + 1] = c[i + 1]]
\* one step towards higher / lower indices, cyclically, of the range [a, b)
RotUp(c, a, b) == [k \in 1..Len(c) |-> IF k = a + 1 /\ b > a THEN c[b] ELSE IF k > a + 1 /\ k <= b THEN c[k - 1] ELSE c[k]]
RotDn(c, a, b) == [k \in 1..Len(c) |-> IF k = b /\ b > a THEN c[a + 1] ELSE IF k > a /\ k < b THEN c[k + 1] ELSE c[k]]
InsertIn(c, i, e) == SubSeq(c, 1, i) \o <<e>> \o SubSeq(c, i + 1, Len(c))
=============================================================================
