---------------------------- MODULE UnboundedLink ----------------------------
(* Unbounded says the same as Ops on everything small. *)
EXTENDS Calls, Json, IOUtils
Un == INSTANCE Unbounded
Longest == 4
W == 9                                   \* 2 * Longest + 1
ToU(p) == IF ~IsIdx(p) THEN Un!R(Lo(p), Hi(p), Pf(p) = "N") ELSE IF Pf(p) = "N" THEN Un!El(Lo(p)) ELSE Un!Edge(Lo(p))
\* the name and the closure script under which Ops knows the operation
Name(op) == IF op \in {"next", "next_back"} THEN "iter" ELSE op
Script(op) == IF op = "next" THEN <<TRUE>> ELSE IF op = "next_back" THEN <<FALSE>> ELSE <<>>
NArgs(op, n, k) == IF op = "vet_range" THEN <<n, k>> ELSE IF op \in {"vet", "contains", "r_split_at", "forward_by", "r_forward_by", "forward_range_by", "r_forward_range_by", "advance_by"} THEN <<n>> ELSE <<>>
Pool(L) == { Ix(i, "N") : i \in 0..(L - 1) } \union { Ix(i, "U") : i \in 0..L } \union { MkI("Q", i, "N") : i \in 0..(L - 1) } \union { MkI("Q", i, "U") : i \in 0..L }
           \union { Rg(a, b, p) : a \in 0..L, b \in 0..L, p \in {"N", "U"} }
Ok(z, L) == Lo(z) <= Hi(z) /\ (Pf(z) = "N" => IsIdx(z) \/ Lo(z) < Hi(z))
Agree(op, a, n, k, L) ==
  LET e == Exp(Name(op), a, NArgs(op, n, k), Script(op), <<>>, [j \in 1..L |-> j])
      x == IF Len(a) > 0 THEN ToU(a[1]) ELSE Un!Edge(0)
      y == IF Len(a) > 1 THEN ToU(a[2]) ELSE Un!Edge(0)
      u == Un!After(op, x, y, n, k, L, W)
      ps == IF Name(op) = "iter" THEN Tail(e.p) ELSE e.p
      good == e.s = "ok" /\ (e.b = <<>> \/ e.b[1]) IN
  /\ Un!Callable(op, x, y)
  /\ u.ok = good
  /\ good \/ op = "r_split_at" => (Len(ps) > 0 /\ u.a = ToU(ps[1]) /\ (Len(ps) > 1 => u.b = ToU(ps[2])))
Linked == \A op \in Un!AllOps \ {"index_twice"} : \A L \in 0..Longest :
  \A a \in ArgSeqs(Name(op), { z \in Pool(L) : Ok(z, L) }) : \A n \in 0..W : \A k \in (IF op = "vet_range" THEN 0..W ELSE {0}) : Agree(op, a, n, k, L)
\* every operation was looked at
ASSUME \A op \in Un!AllOps \ {"index_twice"} : ArgSeqs(Name(op), { z \in Pool(1) : Ok(z, 1) }) # {}
ASSUME Linked
=============================================================================
