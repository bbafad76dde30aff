------------------------------- MODULE WideLink -------------------------------
(***************************************************************************)
(* WideOps says the same as Ops.  The arithmetic on limbs is compared with *)
(* TLC's for every pair of numbers, in several bases; the operations call  *)
(* by call in base 2, where three limbs hold 0..7, containers have up to 3 *)
(* elements and saturation is met.                                         *)
(***************************************************************************)
EXTENDS Calls
Widest(b) == b * b * b - 1
Wd(b) == INSTANCE WideOps WITH Base <- b, WMax <- <<b - 1, b - 1, b - 1>>
L3(b, k) == <<k \div (b * b), (k \div b) % b, k % b>>
Arith(b) == \A j, k \in 0..Widest(b) :
  LET x == L3(b, j)  y == L3(b, k) IN
  /\ Wd(b)!Lt(x, y) = (j < k) /\ Wd(b)!Le(x, y) = (j <= k)
  /\ Wd(b)!SatAdd(x, y) = L3(b, Min(Widest(b), j + k))
  /\ j + k <= Widest(b) => Wd(b)!Add(x, y) = L3(b, j + k)
  /\ k <= j => Wd(b)!Minus(x, y) = L3(b, j - k)
  /\ Wd(b)!MinW(x, y) = L3(b, Min(j, k)) /\ Wd(b)!MaxW(x, y) = L3(b, Max(j, k))
\* (halves are only right in an even base, which every machine has)
Halves(b) == \A j \in 0..Widest(b) : Wd(b)!HalfOf(L3(b, j)) = L3(b, j \div 2)

W2 == INSTANCE WideOps WITH Base <- 2, WMax <- <<1, 1, 1>>
N2(k) == L3(2, k)
P2(x) == <<K(x), N2(Lo(x)), N2(Hi(x)), Pf(x)>>
Longest == 3
Wide == {"i_integer", "i_after", "i_no_proof", "i_copy", "cmp_i", "ord_i", "r_len", "r_is_empty", "r_start", "r_end", "r_as_range", "r_copy",
  "nonempty", "into_checked", "split_in_half", "r_split_at", "contains", "join", "join_cover", "join_cover_both", "frontiers", "r_forward_by",
  "r_forward_range_by", "r_no_proof", "first", "upper_middle", "past_the_end", "lower_middle", "last", "tail", "init", "advance_", "advance",
  "advance_by", "advance_back", "len", "range", "empty_range", "vet", "vet_range", "c_split_at", "c_split_after", "c_split_around", "before",
  "after", "range_of_from", "range_of_to", "range_of_full", "forward", "forward_by", "backward", "forward_range_by", "scan_from",
  "scan_from_rev", "scan_range", "get", "get_r", "get_from", "get_to", "get_full", "mut_r", "mut_from", "mut_to", "mut_full", "index_twice",
  "set", "swap", "push", "insert"}
Pool(L) == { x \in { Ix(i, "N") : i \in 0..(L - 1) } \union { Ix(i, "U") : i \in 0..L } \union { Rg(a, b, p) : a \in 0..L, b \in 0..L, p \in {"N", "U"} } :
             Trusted(x, L) }
Nums(op) == IF op = "vet_range" THEN { <<j, k>> : j \in 0..7, k \in 0..7 }
            ELSE IF op \in {"vet", "contains", "r_split_at", "forward_by", "r_forward_by", "forward_range_by", "r_forward_range_by", "advance_by"} THEN { <<k>> : k \in 0..7 }
            ELSE { <<>> }
\* what an access shows is reduced to its length, a scan's elements to their number
Lens(o) == o.i \o [j \in 1..Len(o.l) |-> Len(o.l[j])]
Agree(op, a, n, m, L) ==
  LET c == [j \in 1..L |-> j]
      o == Exp(op, a, n, m, IF op \in {"set", "push", "insert"} THEN <<9>> ELSE <<>>, c)
      w == W2!Exp(op, [j \in 1..Len(a) |-> P2(a[j])], [j \in 1..Len(n) |-> N2(n[j])], m, N2(L)) IN
  /\ w.s = o.s /\ w.b = o.b /\ w.len = N2(Len(o.c))
  /\ w.p = [j \in 1..Len(o.p) |-> P2(o.p[j])]
  \* (ordering codes and flags are plain numbers, and 2 is not a digit of base 2)
  /\ op \in {"cmp_i", "cmp_r", "ord_i", "ord_r"} \/ w.i = [j \in 1..Len(Lens(o)) |-> N2(Lens(o)[j])]
  /\ op \in {"cmp_i", "cmp_r", "ord_i", "ord_r"} => w.i = [j \in 1..Len(o.i) |-> <<0, 0, o.i[j]>>]
Linked == \A op \in Wide : \A L \in 0..Longest : \A a \in ArgSeqs(op, Pool(L)) : SameType(op, a) =>
          \A n \in Nums(op) : \A m \in AnsSeqs(op, L) : Agree(op, a, n, m, L)
\* the iterator, and the parts of a subdivision
IterLinked == \A L \in 0..Longest : \A x \in { z \in Pool(L) : K(z) = "R" } :
  \A n \in UNION { [1..k -> 0..9] : k \in 0..2 } :
  LET o == IterX("R", Lo(x), Hi(x), n)  w == W2!IterW(P2(x), n) IN
  w.b = o.b /\ w.lo = N2(o.lo) /\ w.hi = N2(o.hi) /\ w.p = [j \in 1..Len(o.p) |-> P2(o.p[j])]
Parts(L) == UNION { [1..k -> { z \in Pool(L) : K(z) = "R" /\ Pf(z) = "N" }] : k \in 0..3 }
W16 == INSTANCE WideOps WITH Base <- 16, WMax <- <<15, 15, 15>>
PartsLinked == \A L \in 0..4 : \A x \in { z \in Pool(L) : K(z) = "R" } : \A n \in 1..5 : \A p \in Parts(L) :
  SubdivideOk(x, n, p) = W16!SubdivideOk(<<K(x), <<0, 0, Lo(x)>>, <<0, 0, Hi(x)>>, Pf(x)>>, <<0, 0, n>>,
                                         [j \in 1..Len(p) |-> <<K(p[j]), <<0, 0, Lo(p[j])>>, <<0, 0, Hi(p[j])>>, Pf(p[j])>>], 9)
TrustLinked == \A L \in 0..3 : \A a, b \in 0..4 : \A k \in {"I", "R"} : \A p \in {"N", "U"} : (k = "I" => a = b) =>
  Trusted(<<k, a, b, p>>, L) = W2!Trusted(<<k, N2(a), N2(b), p>>, N2(L))
ASSUME \A b \in {2, 3, 4, 5} : Arith(b)
ASSUME \A b \in {2, 4, 6} : Halves(b)
ASSUME \A op \in Wide : \E L \in 0..2 : ArgSeqs(op, Pool(L)) # {}
ASSUME Linked
ASSUME IterLinked
ASSUME PartsLinked
ASSUME TrustLinked
=============================================================================
