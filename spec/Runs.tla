-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Where the algorithms look next, given the answer to a comparison.       *)
(* Algorithms (contents, small lengths, TLC) and UnboundedRuns (every      *)
(* length, Apalache) run on these same transitions.                        *)
(***************************************************************************)
EXTENDS Integers

(* @typeAlias: at = { pc: Str, i: Int, j: Int, o: Int }; *)
Runs_aliases == TRUE

\* @type: (Str, Int, Int, Int) => $at;
Pos(pc, i, j, o) == [pc |-> pc, i |-> i, j |-> j, o |-> o]

(* searching i..j: o is the comparison's target position *)
\* @type: (Int, Int) => Int;
Middle(lo, hi) == lo + (hi - lo) \div 2
\* less: behind the middle; otherwise before it
\* @type: (Int, Int, Bool) => $at;
Narrow(lo, hi, less) == IF less THEN Pos("se", Middle(lo, hi) + 1, hi, 0) ELSE Pos("se", lo, Middle(lo, hi), 0)

(* a sorted prefix before i, scanned back from i: j - 1 is compared with i *)
\* @type: (Int, Int, Bool) => $at;
ScanBack(i, j, less) == IF less THEN Pos("is", i, j - 1, 0) ELSE Pos("put", i, j, 0)

(* merging: the buffer's i with the data's j, into o *)
\* @type: (Int, Int, Int, Int, Int, Bool) => $at;
Merge(i, j, o, le, n, left) ==
  IF left THEN (IF i + 1 = le THEN Pos("done", i + 1, j, o + 1) ELSE Pos("mg", i + 1, j, o + 1))
  ELSE IF j + 1 < n THEN Pos("mg", i, j + 1, o + 1) ELSE Pos("rest", i, j + 1, o + 1)

(* cutting the section i..j in two around a pivot; "pc" continues without a comparison *)
\* @type: (Int, Int) => $at;
Forth(i, j) == IF i + 1 > j THEN Pos("cut", i, j, 0) ELSE Pos("pa", i + 1, j, 0)
\* @type: (Int, Int, Bool) => $at;
FromLeft(i, j, ge) == IF ge THEN Pos("pb", i, j, 0) ELSE Forth(i, j)
\* @type: (Int, Int, Bool) => $at;
FromRight(i, j, le) == IF le THEN Pos("pc", i, j, 0) ELSE IF j - 1 < i THEN Pos("cut", i, j, 0) ELSE Pos("pb", i, j - 1, 0)
\* three elements of a section are looked at: which is the pivot
\* @type: (Int, Int) => Int;
UpperMiddle(lo, hi) == lo + (hi + 1 - lo) \div 2

(* sifting: the children of a position *)
\* @type: (Int) => Int;
LeftChild(i) == 2 * i + 1
=============================================================================
