---------------------------- MODULE UnboundedStep ----------------------------
(***************************************************************************)
(* The induction step of Unbounded, for Apalache:                          *)
(*   Init/Next/Inv         one call on an arbitrary trusted state          *)
(*   InitS/NextS/InvS      one part more of a subdivision into Parts parts *)
(*   InitP/Next/InvP       pointers: addresses of elements of Bytes bytes  *)
(* Wrong names a planted mistake, for which the step must fail.            *)
(***************************************************************************)
EXTENDS Unbounded

CONSTANTS
  \* @type: Str;
  Wrong,
  \* @type: Int;
  Parts,
  \* @type: Int;
  Bytes

VARIABLES
  \* @type: Int;
  w,
  \* @type: Int;
  len,
  \* @type: $rng;
  x,
  \* @type: $rng;
  y,
  \* @type: Int;
  n,
  \* @type: Int;
  k,
  \* @type: Str;
  op,
  \* @type: $out;
  o,
  \* a subdivision of x: parts so far, where the next begins, fraction, last part
  \* @type: { done: Int, at: Int, num: Int, from: Int, to: Int };
  s

CRight == Wrong = "" /\ Parts = 1 /\ Bytes = 8
CWrap == Wrong = "wrap" /\ Parts = 1 /\ Bytes = 8
CLe == Wrong = "le" /\ Parts = 1 /\ Bytes = 8
CCover == Wrong = "cover" /\ Parts = 1 /\ Bytes = 8
CHalf == Wrong = "half" /\ Parts = 1 /\ Bytes = 8
CFrac == Wrong = "frac" /\ Parts = 3 /\ Bytes = 8
CParts1 == Wrong = "" /\ Parts = 1 /\ Bytes = 8
CParts2 == Wrong = "" /\ Parts = 2 /\ Bytes = 8
CParts3 == Wrong = "" /\ Parts = 3 /\ Bytes = 8
CParts4 == Wrong = "" /\ Parts = 4 /\ Bytes = 8
CParts7 == Wrong = "" /\ Parts = 7 /\ Bytes = 8
CParts10 == Wrong = "" /\ Parts = 10 /\ Bytes = 8
CBytes0 == Wrong = "" /\ Parts = 1 /\ Bytes = 0
CBytes1 == Wrong = "" /\ Parts = 1 /\ Bytes = 1
CBytes8 == Wrong = "" /\ Parts = 1 /\ Bytes = 8
CBytes24 == Wrong = "" /\ Parts = 1 /\ Bytes = 24
CAddr == Wrong = "addr" /\ Parts = 1 /\ Bytes = 24

\* @type: ($rng) => Bool;
Any(r) == Within(r, len)
Start ==
  /\ w >= 1 /\ len >= 0 /\ 2 * len + 1 <= w
  /\ Within(x, len) /\ Within(y, len)
  /\ 0 <= n /\ n <= w /\ 0 <= k /\ k <= w
Init ==
  /\ w \in Int /\ len \in Int /\ n \in Int /\ k \in Int
  /\ \E a \in Int, b \in Int, p \in BOOLEAN : x = R(a, b, p)
  /\ \E a \in Int, b \in Int, p \in BOOLEAN : y = R(a, b, p)
  /\ Start
  /\ op = "range" /\ o = One(R(0, len, FALSE))
  /\ s = [done |-> 0, at |-> 0, num |-> 0, from |-> 0, to |-> 0]

\* @type: (Str) => $out;
Planted(p) ==
  IF Wrong = "wrap" /\ p = "forward_by" THEN LET j == IF x.lo + n > w THEN x.lo + n - (w + 1) ELSE x.lo + n IN If(j < len, El(j))
  ELSE IF Wrong = "le" /\ p = "vet" THEN If(n <= len, El(n))
  ELSE IF Wrong = "cover" /\ p = "join_cover" THEN One(R(x.lo, Most(x.hi, y.hi), x.ne \/ y.ne))
  ELSE IF Wrong = "half" /\ p = "split_in_half" THEN LET h == x.lo + (x.hi - x.lo + 1) \div 2 IN Two(R(x.lo, h, FALSE), R(h, x.hi, x.ne))
  ELSE After(p, x, y, n, k, len, w)
Next ==
  /\ \E p \in AllOps : Callable(p, x, y) /\ op' = p /\ o' = Planted(p)
  /\ UNCHANGED <<w, len, x, y, n, k, s>>
\* also when the container has grown
Inv == /\ Within(o.a, len) /\ Within(o.b, len) /\ Within(o.a, len + 1) /\ Within(o.b, len + 1)
       /\ Law(op, x, y, n, k, len, o)
       \* the machine integers suffice
       /\ o.a.hi + 1 <= w /\ o.b.hi + 1 <= w

(* ---- subdivision: n * (at - start) + num = done * size ---- *)
Size == x.hi - x.lo
DS == Size \div Parts
FS == IF Wrong = "frac" THEN (Size % Parts) + 1 ELSE Size % Parts
End_ == IF DS = 0 THEN x.lo ELSE x.hi
Sub == /\ Parts * (s.at - x.lo) + s.num = s.done * Size /\ 0 <= s.num /\ s.num < Parts /\ 0 <= s.done /\ s.done <= Parts
       /\ x.lo <= s.at /\ s.at <= x.hi
InitS ==
  /\ w \in Int /\ len \in Int /\ n \in Int /\ k \in Int
  /\ \E a \in Int, b \in Int, p \in BOOLEAN : x = R(a, b, p)
  /\ \E a \in Int, b \in Int, p \in BOOLEAN : y = R(a, b, p)
  /\ Start
  /\ op = "range" /\ o = One(R(0, len, FALSE))
  /\ \E d \in 0..Parts, at \in Int, num \in 0..(Parts - 1) : s = [done |-> d, at |-> at, num |-> num, from |-> x.lo, to |-> x.lo + DS]
  /\ Sub /\ DS > 0
\* (the start of a subdivision satisfies Sub with done = 0, at = start, num = 0)
NextS ==
  /\ s.at < End_
  /\ LET num == s.num + FS
         to == s.at + DS + (IF num >= Parts THEN 1 ELSE 0) IN
     s' = [done |-> s.done + 1, at |-> to, num |-> IF num >= Parts THEN num - Parts ELSE num, from |-> s.at, to |-> to]
  /\ UNCHANGED <<w, len, x, y, n, k, op, o>>
\* a part is nonempty, lies inside, has one of two sizes; there are Parts of them and the last one ends at the end
InvS == /\ Sub
        /\ x.lo <= s.from /\ s.from < s.to /\ s.to <= x.hi
        /\ s.to - s.from \in {DS, DS + 1}
        /\ (s.done = Parts <=> s.at = x.hi)

(* ---- pointers: k is the address of the first element ---- *)
PtrOps == {"split_in_half", "nonempty", "next", "next_back", "first", "upper_middle", "past_the_end", "last", "tail", "init",
           "advance_", "advance_back", "c_split_at", "range_of_from", "range_of_to", "nonempty_range"}
\* @type: (Int) => Int;
Ad(i) == k + Bytes * i
\* the number of elements between two addresses
\* @type: (Int, Int) => Int;
Dist(a, b) == IF Bytes = 0 THEN 0 ELSE (b - a) \div (IF Bytes = 0 THEN 1 ELSE Bytes)
\* what a pointer range [f, t) (and the pointers f, g) yields, in addresses: the ends of the results; 
\* a pointer to an element is [lo |-> f, hi |-> f + Bytes], an edge [lo |-> f, hi |-> f]
\* @type: (Str, Int, Int, Int) => $out;
ByAddress(p, f, t, g) ==
  LET mid == f + Bytes * (Dist(f, t) \div 2)
      at(a) == IF x.ne THEN R(a, a + Bytes, TRUE) ELSE R(a, a, FALSE)
      start == k
      end == k + Bytes * len IN
  CASE p = "split_in_half" -> Two(R(f, mid, FALSE), R(mid, t, x.ne))
    [] p = "nonempty" -> If(f # t, R(f, t, TRUE))
    [] p = "next" -> IF f # t THEN Two(R(f, f + Bytes, TRUE), R(f + Bytes, t, FALSE)) ELSE No
    [] p = "next_back" -> IF f # t THEN Two(R(t - Bytes, t, TRUE), R(f, t - Bytes, FALSE)) ELSE No
    [] p = "first" -> One(at(f))
    [] p = "upper_middle" -> One(at(f + Bytes * ((IF Wrong = "addr" THEN Dist(f, t) + 1 ELSE Dist(f, t)) \div 2)))
    [] p = "past_the_end" -> One(R(t, t, FALSE))
    [] p = "last" -> One(R(t - Bytes, t, TRUE))
    [] p = "tail" -> One(R(f + Bytes, t, FALSE))
    [] p = "init" -> One(R(f, t - Bytes, FALSE))
    [] p = "advance_" -> If(f + Bytes # t, R(f + Bytes, t, TRUE))
    [] p = "advance_back" -> If(t - Bytes # f, R(f, t - Bytes, TRUE))
    [] p = "c_split_at" -> Two(R(start, f, FALSE), R(f, end, x.ne))
    [] p = "range_of_from" -> One(R(f, end, FALSE))
    [] p = "range_of_to" -> One(R(start, f, FALSE))
    [] OTHER -> If(f < g, R(f, g, TRUE))
\* (conversion to start and length, and back, is Dist and Ad)
InitP == Init /\ k + Bytes * len <= w
InvP == op \in PtrOps =>
  LET p == ByAddress(op, Ad(x.lo), Ad(x.hi), Ad(y.lo)) IN
  /\ p.ok <=> o.ok
  /\ o.ok => /\ p.a.lo = Ad(o.a.lo) /\ p.a.hi = Ad(o.a.hi) /\ (p.a.ne <=> o.a.ne)
             /\ (op \in {"split_in_half", "next", "next_back", "c_split_at"} => p.b.lo = Ad(o.b.lo) /\ p.b.hi = Ad(o.b.hi) /\ (p.b.ne <=> o.b.ne))
             /\ Dist(Ad(o.a.lo), Ad(o.a.hi)) = o.a.hi - o.a.lo
=============================================================================
