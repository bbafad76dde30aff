------------------------------ MODULE Unbounded ------------------------------
(***************************************************************************)
(* Trusted positions without any bound on lengths, positions or offsets.   *)
(*                                                                         *)
(* One call of any operation on any two trusted positions of a container   *)
(* of any length (up to half the machine integers: Rust's limit) yields    *)
(* trusted positions and obeys its law, in machine arithmetic.  Each       *)
(* result depends on at most two positions, so by induction no sequence of *)
(* calls ever leaves the container.  Apalache proves the step for all      *)
(* integers (length 1 from an arbitrary state).  Laws.tla has TLC compare  *)
(* After with the operations of Ops.tla, which the recorded calls of the   *)
(* crate are compared with.                                                *)
(*                                                                         *)
(* A position i of an element is [lo |-> i, hi |-> i + 1, ne |-> TRUE], an *)
(* edge i is [lo |-> i, hi |-> i, ne |-> FALSE].                           *)
(***************************************************************************)
EXTENDS Integers

\* @typeAlias: rng = { lo: Int, hi: Int, ne: Bool };
\* @typeAlias: out = { ok: Bool, a: $rng, b: $rng };
Unbounded_aliases == TRUE

\* @type: (Int, Int, Bool) => $rng;
R(a, b, p) == [lo |-> a, hi |-> b, ne |-> p]
\* @type: (Int) => $rng;
El(i) == R(i, i + 1, TRUE)
\* @type: (Int) => $rng;
Edge(i) == R(i, i, FALSE)
\* @type: ($rng, $rng) => $out;
Two(a, b) == [ok |-> TRUE, a |-> a, b |-> b]
\* @type: ($rng) => $out;
One(a) == Two(a, Edge(0))
\* @type: () => $out;
No == [ok |-> FALSE, a |-> Edge(0), b |-> Edge(0)]
\* @type: (Bool, $rng) => $out;
If(c, a) == IF c THEN One(a) ELSE No
\* @type: (Int, Int) => Int;
Least(a, b) == IF a < b THEN a ELSE b
\* @type: (Int, Int) => Int;
Most(a, b) == IF a > b THEN a ELSE b
\* addition that stops at the largest machine integer w
\* @type: (Int, Int, Int) => Int;
Sat(a, b, w) == IF a + b > w THEN w ELSE a + b

OneRange == {"split_in_half", "frontiers", "nonempty", "next", "next_back", "c_split_around", "first", "upper_middle", "past_the_end"}
OneNonempty == {"last", "lower_middle", "tail", "init", "advance_", "advance_back"}
OneElement == {"c_split_after", "after", "forward", "backward"}
OnePosition == {"c_split_at", "before", "range_of_from", "range_of_to"}
NumRange == {"r_split_at", "contains"}
NumNonempty == {"advance_by"}
NumElement == {"forward_by"}
NumBoth == {"r_forward_range_by"}
NumAny == {"forward_range_by"}
TwoRanges == {"join", "join_cover", "join_cover_both", "index_twice", "nonempty_range"}
Free == {"vet", "vet_range", "range", "empty_range"}
AllOps == OneRange \union OneNonempty \union OneElement \union OnePosition \union NumRange \union NumNonempty \union NumElement
          \union NumBoth \union NumAny \union TwoRanges \union Free \union {"r_forward_by"}

\* what the types ask of the arguments
\* @type: (Str, $rng, $rng) => Bool;
Callable(op, x, y) ==
  /\ op \in OneNonempty \union NumNonempty => x.ne
  /\ op \in OneElement \union NumElement => x.ne /\ x.hi = x.lo + 1
  /\ op \in OnePosition => x = El(x.lo) \/ x = Edge(x.lo)
  /\ op = "r_forward_by" => y.ne /\ y.hi = y.lo + 1

\* the outcome of op on x, y, numbers n and k, in a container of length len, with machine integers up to w
\* @type: (Str, $rng, $rng, Int, Int, Int, Int) => $out;
After(op, x, y, n, k, len, w) ==
  LET size == x.hi - x.lo
      half == x.lo + size \div 2
      some == x.lo < x.hi IN
  CASE op = "split_in_half" -> Two(R(x.lo, half, FALSE), R(half, x.hi, x.ne))
    [] op = "frontiers" -> Two(Edge(x.lo), Edge(x.hi))
    [] op = "nonempty" -> If(some, R(x.lo, x.hi, TRUE))
    [] op = "next" -> IF some THEN Two(El(x.lo), R(x.lo + 1, x.hi, FALSE)) ELSE No
    [] op = "next_back" -> IF some THEN Two(El(x.hi - 1), R(x.lo, x.hi - 1, FALSE)) ELSE No
    [] op = "c_split_around" -> Two(R(0, x.lo, FALSE), R(x.hi, len, FALSE))
    [] op = "first" -> One(IF x.ne THEN El(x.lo) ELSE Edge(x.lo))
    [] op = "upper_middle" -> One(IF x.ne THEN El(half) ELSE Edge(half))
    [] op = "past_the_end" -> One(Edge(x.hi))
    [] op = "last" -> One(El(x.hi - 1))
    [] op = "lower_middle" -> One(El(x.lo + (size - 1) \div 2))
    [] op = "tail" -> One(R(x.lo + 1, x.hi, FALSE))
    [] op = "init" -> One(R(x.lo, x.hi - 1, FALSE))
    [] op = "advance_" -> If(x.lo + 1 < x.hi, R(x.lo + 1, x.hi, TRUE))
    [] op = "advance_back" -> If(x.lo + 1 < x.hi, R(x.lo, x.hi - 1, TRUE))
    [] op = "advance_by" -> LET j == Sat(x.lo, n, w) IN If(j < x.hi, R(j, x.hi, TRUE))
    [] op = "c_split_after" -> Two(R(0, x.lo + 1, TRUE), R(x.lo + 1, len, FALSE))
    [] op = "after" -> One(R(x.lo + 1, len, FALSE))
    [] op = "forward" -> If(x.lo + 1 < len, El(x.lo + 1))
    [] op = "backward" -> If(x.lo > 0, El(x.lo - 1))
    [] op = "c_split_at" -> Two(R(0, x.lo, FALSE), R(x.lo, len, x.ne))
    [] op = "before" -> One(R(0, x.lo, FALSE))
    [] op = "range_of_to" -> One(R(0, x.lo, FALSE))
    [] op = "range_of_from" -> One(R(x.lo, len, FALSE))
    [] op = "r_split_at" -> LET mid == IF n > size THEN x.hi ELSE x.lo + n IN [Two(R(x.lo, mid, FALSE), R(mid, x.hi, FALSE)) EXCEPT !.ok = n <= size]
    [] op = "contains" -> If(x.lo <= n /\ n < x.hi, El(n))
    [] op = "forward_by" -> LET j == Sat(x.lo, n, w) IN If(j < len, El(j))
    [] op = "r_forward_by" -> LET j == Sat(y.lo, n, w) IN If(j < x.hi, El(j))
    [] op = "forward_range_by" -> One(R(Least(len, Sat(x.lo, n, w)), Least(len, Sat(x.hi, n, w)), FALSE))
    [] op = "r_forward_range_by" -> One(R(Least(Sat(y.lo, n, w), x.hi), Least(Sat(y.hi, n, w), x.hi), FALSE))
    [] op = "join" -> If(x.hi = y.lo, R(x.lo, y.hi, x.ne \/ y.ne))
    [] op = "join_cover" -> One(R(x.lo, Most(x.hi, y.hi), x.ne))
    [] op = "join_cover_both" -> One(R(Least(x.lo, y.lo), Most(x.hi, y.hi), x.ne \/ y.ne))
    [] op = "index_twice" -> IF x.hi <= y.lo THEN Two(R(x.lo, x.hi, FALSE), R(y.lo, y.hi, FALSE)) ELSE No
    [] op = "nonempty_range" -> If(x.lo < y.lo, R(x.lo, y.lo, TRUE))
    [] op = "vet" -> If(n < len, El(n))
    [] op = "vet_range" -> If(n <= k /\ k <= len, R(n, k, FALSE))
    [] op = "range" -> One(R(0, len, FALSE))
    [] OTHER -> One(Edge(0))

\* within the container, and of at least one element if it says so
\* @type: ($rng, Int) => Bool;
Within(r, len) == 0 <= r.lo /\ r.lo <= r.hi /\ r.hi <= len /\ (r.ne => r.lo < r.hi)

\* what the operation promises, without saying how it is computed
\* @type: (Str, $rng, $rng, Int, Int, Int, $out) => Bool;
Law(op, x, y, n, k, len, o) ==
  LET size == x.hi - x.lo IN
  /\ op \in {"split_in_half", "r_split_at"} => o.a.lo = x.lo /\ o.a.hi = o.b.lo /\ o.b.hi = x.hi
  /\ op = "split_in_half" => (o.b.hi - o.b.lo) - (o.a.hi - o.a.lo) \in {0, 1} /\ (o.b.ne <=> x.ne)
  /\ op = "r_split_at" => (o.ok <=> n <= size) /\ o.a.hi - o.a.lo = Least(n, size)
  /\ op \in {"c_split_at", "c_split_after"} => o.a.lo = 0 /\ o.a.hi = o.b.lo /\ o.b.hi = len
  /\ op = "c_split_around" => o.a.lo = 0 /\ o.a.hi = x.lo /\ o.b.lo = x.hi /\ o.b.hi = len
  /\ op = "frontiers" => o.a = Edge(x.lo) /\ o.b = Edge(x.hi)
  /\ op = "nonempty" => (o.ok <=> size > 0) /\ (o.ok => o.a = R(x.lo, x.hi, TRUE))
  /\ op \in {"next", "next_back"} => (o.ok <=> size > 0) /\ (o.ok => (o.b.hi - o.b.lo = size - 1 /\ ((o.a.lo = x.lo /\ o.b.hi = x.hi) \/ (o.a.hi = x.hi /\ o.b.lo = x.lo))))
  /\ op \in {"first", "upper_middle"} /\ size > 0 => x.lo <= o.a.lo /\ o.a.lo < x.hi
  /\ op = "upper_middle" /\ x.ne => (o.a.lo - x.lo) - (x.hi - 1 - o.a.lo) \in {0, 1}
  /\ op = "lower_middle" => (x.hi - 1 - o.a.lo) - (o.a.lo - x.lo) \in {0, 1}
  /\ op \in {"last", "lower_middle"} => x.lo <= o.a.lo /\ o.a.lo < x.hi
  /\ op \in {"tail", "init"} => o.a.hi - o.a.lo = size - 1 /\ x.lo <= o.a.lo /\ o.a.hi <= x.hi
  \* stepping: exactly when the place is there, by exactly the offset (not modulo anything)
  /\ op \in {"advance_", "advance_back"} => (o.ok <=> size > 1) /\ (o.ok => o.a.hi - o.a.lo = size - 1)
  /\ op = "advance_by" => (o.ok <=> x.lo + n < x.hi) /\ (o.ok => o.a = R(x.lo + n, x.hi, TRUE))
  /\ op = "forward" => (o.ok <=> x.lo + 1 < len) /\ (o.ok => o.a = El(x.lo + 1))
  /\ op = "backward" => (o.ok <=> x.lo > 0) /\ (o.ok => o.a = El(x.lo - 1))
  /\ op = "forward_by" => (o.ok <=> x.lo + n < len) /\ (o.ok => o.a = El(x.lo + n))
  /\ op = "r_forward_by" => (o.ok <=> y.lo + n < x.hi) /\ (o.ok => o.a = El(y.lo + n))
  /\ op = "forward_range_by" => o.a.lo = Least(len, x.lo + n) /\ o.a.hi = Least(len, x.hi + n)
  /\ op = "r_forward_range_by" => o.a.lo = Least(x.hi, y.lo + n) /\ o.a.hi = Least(x.hi, y.hi + n)
  \* vetting: exactly what is there
  /\ op = "vet" => (o.ok <=> n < len) /\ (o.ok => o.a = El(n))
  /\ op = "vet_range" => (o.ok <=> n <= k /\ k <= len) /\ (o.ok => o.a = R(n, k, FALSE))
  /\ op = "contains" => (o.ok <=> x.lo <= n /\ n < x.hi) /\ (o.ok => o.a = El(n))
  \* joining
  /\ op = "join" => (o.ok <=> x.hi = y.lo) /\ (o.ok => o.a.hi - o.a.lo = size + (y.hi - y.lo) /\ (o.a.ne <=> x.ne \/ y.ne))
  /\ op = "join_cover" => o.a.lo = x.lo /\ o.a.hi >= x.hi /\ o.a.hi >= y.hi /\ (o.a.hi = x.hi \/ o.a.hi = y.hi) /\ (o.a.ne <=> x.ne)
  /\ op = "join_cover_both" => /\ o.a.lo <= x.lo /\ o.a.lo <= y.lo /\ o.a.hi >= x.hi /\ o.a.hi >= y.hi
                               /\ (o.a.lo = x.lo \/ o.a.lo = y.lo) /\ (o.a.hi = x.hi \/ o.a.hi = y.hi) /\ (o.a.ne <=> x.ne \/ y.ne)
  /\ op = "index_twice" => (o.ok <=> x.hi <= y.lo) /\ (o.ok => o.a.hi <= o.b.lo)
  /\ op = "nonempty_range" => (o.ok <=> x.lo < y.lo)
=============================================================================
