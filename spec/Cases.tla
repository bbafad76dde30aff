-------------------------------- MODULE Cases ---------------------------------
(***************************************************************************)
(* Every single call, exhaustively: all operations in focus, on containers *)
(* of every length up to maxlen, with every trusted position that exists   *)
(* at that length, every offset/number up to two past the end (and "huge"),*)
(* every scripted closure behaviour.  TLC checks the Laws on each of them  *)
(* (one state per call); the same set is written to IOEnv.OUT and replayed *)
(* against the real crate.                                                 *)
(***************************************************************************)
EXTENDS Laws, TLC, Json, IOUtils, SequencesExt

Cfg == ndJsonDeserialize(IOEnv.FOCUS)[1]
FocusOps == { Cfg.ops[k] : k \in 1..Len(Cfg.ops) } \intersect AllOps
MaxLen == Cfg.maxlen
\* operations on two ranges with closures are the most numerous
LenFor(op) == IF op \in {"zip_mut_raw", "p_eq", "index_twice", "join", "join_cover", "join_cover_both", "cmp_r", "ord_r",
                         "iter", "p_iter", "iter_x", "p_iter_x", "scan_pr", "scan_pr_rev", "scan_range", "r_forward_range_by", "s_eq"}
              THEN Min(MaxLen, Cfg.maxlen2) ELSE MaxLen

CasesOf(op, L) ==
  LET pool == AllParts(Kinds, L) IN
  { [op |-> op, L |-> L, a |-> a, n |-> n, m |-> m] :
      a \in { x \in ArgSeqs(op, pool) : SameType(op, x) }, n \in NumSeqs(op, L), m \in AnsSeqs(op, L) }
AllCases == UNION { UNION { CasesOf(op, L) : L \in 0..LenFor(op) } : op \in FocusOps }

Content(L) == [j \in 1..L |-> j]
Out1(q) == LET c == Content(q.L)
               e == IF q.op \in {"set", "push", "insert"} THEN <<q.L + 1>> ELSE <<>>
               x == q.a[1] IN
  [op |-> q.op, a |-> q.a, n |-> q.n, m |-> q.m, e |-> e, c |-> c,
   o |-> IF q.op \in {"subdivide", "subdivide_x"}
         THEN Out("ok", IF q.n[1] > Len_(x) THEN <<>>
                        ELSE [j \in 1..q.n[1] |-> Rg(Lo(x) + ((j - 1) * Len_(x)) \div q.n[1], Lo(x) + (j * Len_(x)) \div q.n[1], "N")],
                  <<>>, <<>>, <<TRUE, TRUE>>, c)
         ELSE Exp(q.op, q.a, q.n, q.m, e, c)]

VARIABLE q
Init == q \in AllCases
Next == FALSE /\ q' = q
Spec == Init /\ [][Next]_q

LawsHold == LET t == Out1(q) IN t.o.s # "unknown" /\ Laws(t)
\* the contract of subdivision admits the crate's documented outcome
SubdivideAdmitted == q.op \in {"subdivide", "subdivide_x"} => SubdivideOk(q.a[1], q.n[1], Out1(q).o.p)
Emitted == TLCGet("distinct") > 0 /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(AllCases))
=============================================================================
