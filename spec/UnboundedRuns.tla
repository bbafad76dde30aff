---------------------------- MODULE UnboundedRuns ----------------------------
(***************************************************************************)
(* The algorithms on slices of every length, for Apalache.                 *)
(*                                                                         *)
(* Each part has an inductive invariant; its Init is every state in which  *)
(* the invariant holds, so one step of Next proves it for all runs.  What  *)
(* has to be known of all elements is known of one, at position z with key *)
(* kz, chosen beforehand: reading there yields kz, and reading anywhere    *)
(* else yields any key for which the invariant holds as well.  If honest   *)
(* is false, every comparison may be answered either way.  The positions   *)
(* move as in Runs, which Algorithms moves by, too.                        *)
(*   Se  searching          Is  scanning back over a sorted prefix         *)
(*   Mg  merging            Pa  cutting a section around a pivot           *)
(*   Hp  sifting                                                           *)
(***************************************************************************)
EXTENDS Runs

CONSTANT
  \* @type: Str;
  Wrong

VARIABLES
  \* @type: Int;
  n,
  \* @type: $at;
  at,
  \* first and last position of what is worked on
  \* @type: Int;
  lo,
  \* @type: Int;
  hi,
  \* (what these are differs)
  \* @type: Int;
  p,
  \* @type: Int;
  q,
  \* @type: Int;
  r,
  \* the element watched, and the key compared with
  \* @type: Int;
  z,
  \* @type: Int;
  kz,
  \* @type: Int;
  k,
  \* @type: Bool;
  honest,
  \* @type: Bool;
  f,
  \* position and outcome of the comparison just made
  \* @type: { i: Int, j: Int, ok: Bool };
  got

RRight == Wrong = ""
RTail == Wrong = "tail"
RHalf == Wrong = "half"
RBack == Wrong = "back"
RTie == Wrong = "tie"
RFill == Wrong = "fill"
RCut == Wrong = "cut"
RStop == Wrong = "stop"
RChild == Wrong = "child"

vars == <<n, at, lo, hi, p, q, r, z, kz, k, honest, f, got>>
Any ==
  /\ n \in Int /\ lo \in Int /\ hi \in Int /\ p \in Int /\ q \in Int /\ r \in Int /\ z \in Int /\ kz \in Int /\ k \in Int
  /\ honest \in BOOLEAN /\ f \in BOOLEAN
  /\ got = [i |-> 0, j |-> 0, ok |-> TRUE]
  /\ n >= 0
Places(pcs) == \E pc \in pcs, i \in Int, j \in Int, o \in Int : at = Pos(pc, i, j, o)

(* ---- searching lo..hi: elements before p are less, those before q equal, and r halves with each comparison ---- *)
IndSe ==
  /\ 0 <= lo /\ lo <= hi /\ hi <= n /\ r >= 0
  /\ honest => lo <= p /\ p <= q /\ q <= hi
  /\ at.pc = "se" => lo <= at.i /\ at.i <= at.j /\ at.j <= hi /\ at.j - at.i <= r
  \* what is looked for is not behind or before what is left
  /\ honest /\ at.pc = "se" => at.i <= p /\ (f => q <= at.j) /\ (~f => p <= at.j)
InitSe == Any /\ Places({"se"}) /\ IndSe
\* f: equal ends the search
NextSe ==
  \E less \in BOOLEAN, same \in BOOLEAN :
    LET m == Middle(at.i, at.j)
        to == Narrow(at.i, at.j, less)
        w == IF Wrong = "tail" /\ less THEN Pos("se", m, at.j, 0) ELSE IF Wrong = "half" /\ ~less /\ at.i < m THEN Pos("se", at.i, m - 1, 0) ELSE to IN
    /\ at.pc = "se" /\ ~(less /\ same)
    /\ honest => less = (m < p) /\ same = (p <= m /\ m < q)
    /\ at' = IF at.i = at.j THEN Pos("absent", at.i, at.j, 0) ELSE IF f /\ same THEN Pos("found", m, m, 0) ELSE w
    /\ r' = IF at.i = at.j THEN r ELSE r \div 2
    /\ got' = [i |-> m, j |-> m, ok |-> at.i = at.j \/ (lo <= m /\ m < hi)]
    /\ UNCHANGED <<n, lo, hi, p, q, z, kz, k, honest, f>>
\* the element looked at is inside; the answer is right; r >= 1 at a comparison, so that there are at most log2(hi - lo) + 1 of them
InvSe ==
  /\ IndSe /\ got.ok
  /\ at.pc \in {"found", "absent"} => lo <= at.i /\ at.i <= hi
  /\ honest /\ at.pc = "found" => p <= at.i /\ at.i < q
  /\ honest /\ at.pc = "absent" => at.i = p /\ (f => p = q)
  /\ at.pc = "se" /\ at.i < at.j => r >= 1

(* ---- scanning back: k is the key at i, everything before i is in order, q the key last looked at ---- *)
IndIs ==
  /\ 0 <= at.j /\ at.j <= at.i /\ at.i < n /\ 0 <= z /\ z < at.i
  /\ honest /\ at.j < at.i => q > k /\ (z < at.j => kz <= q)
  /\ honest /\ z >= at.j => kz > k
  /\ honest /\ at.pc = "put" => (z < at.j => kz <= k)
InitIs == Any /\ Places({"is"}) /\ IndIs
NextIs ==
  IF at.j = 0 THEN at.pc = "is" /\ at' = [at EXCEPT !.pc = "put"] /\ UNCHANGED <<n, lo, hi, p, q, r, z, kz, k, honest, f, got>>
  ELSE
    \E key \in Int, less \in BOOLEAN :
      /\ at.pc = "is"
      \* the key before j fits into the order
      /\ z = at.j - 1 => key = kz
      /\ z < at.j - 1 => kz <= key
      /\ z >= at.j => key <= kz
      /\ honest /\ at.j < at.i => key <= q
      /\ honest => less = (IF Wrong = "back" THEN k <= key ELSE k < key)
      /\ at' = ScanBack(at.i, at.j, less)
      /\ q' = IF less THEN key ELSE q
      /\ got' = [i |-> at.j - 1, j |-> at.i, ok |-> 0 <= at.j - 1 /\ at.j - 1 < at.i]
      /\ UNCHANGED <<n, lo, hi, p, r, z, kz, k, honest, f>>
\* where it is put, no earlier element is greater and every later one is: order is kept, and so is the order of equals
InvIs == IndIs /\ got.ok

(* ---- merging: p = length of the left part (in the buffer), k = key written last, q and r = next keys of the two ---- *)
IndMg ==
  /\ 0 < p /\ p < n
  /\ at.pc = "mg" => /\ 0 <= at.i /\ at.i < p /\ p <= at.j /\ at.j < n
                     /\ at.o = at.i + (at.j - p)          \* so o < j: what is written over has been moved
                     /\ honest /\ at.o > 0 => k <= q /\ k <= r
  \* there is room for what is left of the buffer, exactly, and it is not less
  /\ at.pc = "rest" => at.j = n /\ 0 <= at.i /\ at.i < p /\ n - at.o = p - at.i /\ (honest => k <= q)
  \* the buffer is used up, and the rest is in its place
  /\ at.pc = "done" => at.i = p /\ at.o = at.j /\ p < at.o + 1 /\ at.o < n /\ (honest => k <= r)
InitMg == Any /\ Places({"mg"}) /\ IndMg
NextMg ==
  \E left \in BOOLEAN, key \in Int :
    /\ at.pc = "mg"
    /\ honest => left = (IF Wrong = "tie" THEN q < r ELSE q <= r)
    /\ at' = IF Wrong = "fill" /\ ~left /\ at.j + 1 = n THEN Pos("rest", at.i, at.j + 1, at.o) ELSE Merge(at.i, at.j, at.o, p, n, left)
    /\ k' = IF left THEN q ELSE r
    \* the next key of that part is not less; of equal keys the left part's come first
    /\ IF left THEN q <= key /\ q' = key /\ r' = r ELSE r <= key /\ r' = key /\ q' = q
    /\ got' = [i |-> at.i, j |-> at.j, ok |-> at.i < p /\ at.j < n /\ at.o < at.j /\ (honest /\ ~left => r < q)]
    /\ UNCHANGED <<n, lo, hi, p, z, kz, honest, f>>
\* at the end of "done", a part of which all has been taken has no next key: its k' <= key says nothing
InvMg == IndMg /\ got.ok

(* ---- cutting: k = key at lo (the pivot), f = two elements have been swapped, p = a witness that is not greater ---- *)
\* p > lo with key <= k: the pivot is the smaller of two; p = lo: unknown
Before(y, ky) == lo <= y /\ y < at.i => ky <= k
Behind(y, ky) == at.j < y /\ y <= hi => IF f THEN ky >= k ELSE ky > k
\* what is known of position y with key ky
Known(y, ky) ==
  /\ Before(y, ky) /\ Behind(y, ky)
  /\ f /\ y = at.j /\ at.pc # "pb" => ky >= k
  /\ y = lo => ky = k
  /\ ~f /\ p > lo /\ y = p => ky <= k
  \* from the right: at i is something that has to go
  /\ at.pc = "pb" /\ y = at.i => ky >= k
  /\ at.pc = "pc" /\ y = at.i => ky <= k
IndPa ==
  /\ 0 <= lo /\ lo < hi /\ hi < n /\ lo <= z /\ z <= hi
  /\ lo <= at.i /\ at.i <= at.j /\ at.j <= hi
  /\ at.pc = "pc" => f \/ at.i = at.j
  /\ honest =>
       /\ lo <= p /\ p <= hi
       /\ ~f => at.i = lo /\ (p > lo => p <= at.j)
       /\ f => (at.pc # "pc" => at.i > lo)
       /\ f => at.j > lo
       /\ at.pc # "cut" => Known(z, kz)
InitPa == Any /\ Places({"pa", "pb", "pc"}) /\ IndPa
\* a key found at y
Read(y, ky) == honest => (z = y => ky = kz) /\ Known(y, ky)
NextPa ==
  \E ki \in Int, kj \in Int, yes \in BOOLEAN :
    /\ Read(at.i, ki) /\ Read(at.j, kj) /\ (at.i = at.j => ki = kj)
    /\ honest => yes = (IF at.pc = "pa" THEN ki >= k ELSE kj <= k)
    /\ LET to == CASE at.pc = "pa" -> FromLeft(at.i, at.j, yes)
                   [] at.pc = "pb" -> FromRight(at.i, at.j, yes)
                   [] OTHER -> Forth(at.i, at.j)
           sw == at.pc = "pb" /\ yes IN
       /\ at.pc \in {"pa", "pb", "pc"}
       /\ at' = IF Wrong = "cut" /\ to.pc = "cut" THEN Pos("cut", to.i + 1, to.j + 1, 0)
                ELSE IF Wrong = "stop" /\ at.pc = "pb" /\ to.pc = "pb" /\ to.j = to.i + 1 THEN Pos("cut", to.i, to.j, 0) ELSE to
       \* the two are swapped, also when one is the pivot
       /\ kz' = IF sw /\ z = at.i THEN kj ELSE IF sw /\ z = at.j THEN ki ELSE kz
       /\ k' = IF sw /\ at.i = lo THEN kj ELSE k
       /\ f' = (f \/ (sw /\ at.i < at.j))
    /\ got' = [i |-> at.i, j |-> at.j, ok |-> lo <= at.i /\ at.j <= hi]
    /\ UNCHANGED <<n, lo, hi, p, q, r, z, honest>>
InvPa ==
  /\ IndPa /\ got.ok
  /\ at.pc = "cut" =>
       \* both sections lie inside
       /\ lo <= at.i /\ at.i <= hi
       /\ honest => /\ z < at.i => kz <= k
                    /\ z >= at.i => kz >= k
                    \* both are shorter than the whole if the pivot was not the only least element; otherwise it now stands first,
                    \* and the next pivot of the same section (not the first element) is not
                    /\ p > lo => lo < at.i
                    /\ at.i = lo /\ z > lo => kz > k
\* before: the median of three (q, r, kz are the keys at lo, in the middle and at hi) goes first
IndMe == 0 <= lo /\ lo < hi /\ hi < n /\ honest
InitMe == Any /\ Places({"m"}) /\ IndMe
NextMe ==
  LET m == UpperMiddle(lo, hi)
      first == q <= r /\ r <= kz
      second == r <= q /\ q <= kz IN
  /\ at.pc = "m"
  /\ at' = Pos("pa", lo, hi, 0)
  /\ k' = IF first THEN r ELSE IF second THEN q ELSE kz
  \* where an element that is not greater now is, other than first
  /\ p' = IF first THEN m ELSE IF second THEN m ELSE IF q <= kz THEN hi ELSE IF r <= kz THEN m ELSE lo
  /\ f' = FALSE
  /\ got' = [i |-> m, j |-> hi, ok |-> lo < m /\ m <= hi]
  /\ UNCHANGED <<n, lo, hi, q, r, z, kz, honest>>
\* there is such an element unless the last is the only least of the three; never when the first is
InvMe ==
  /\ got.ok
  /\ at.pc = "pa" => /\ p = lo => kz < q /\ kz < r
                     /\ q < r /\ q < kz => p > lo
                     /\ p > lo => p <= hi

(* ---- sifting from lo: at.i = where the element is, k its key; the watched pair is z and its child p, with keys kz and q ---- *)
Child(y, w) == w = LeftChild(y) \/ w = LeftChild(y) + 1
IndHp ==
  /\ 0 <= lo /\ lo <= at.i /\ at.i < n /\ lo <= z /\ Child(z, p) /\ p < n
  /\ at.pc = "hp" /\ honest =>
       /\ z # at.i => kz <= q
       /\ z = at.i => kz = k
       /\ p = at.i => q = k /\ (at.i > lo => kz = r)
       \* r: key above the element (if that is at or behind lo): not greater than those below it
       /\ at.i > lo => r <= k
       /\ at.i > lo /\ z = at.i => r <= q
  /\ at.pc = "end" /\ honest => kz <= q
InitHp == Any /\ Places({"hp"}) /\ IndHp
NextHp ==
  \E ka \in Int, kb \in Int, right \in BOOLEAN, stop \in BOOLEAN :
    LET a == LeftChild(at.i)
        b == a + 1
        c == IF b < n /\ right THEN b ELSE a
        kc == IF b < n /\ right THEN kb ELSE ka IN
    /\ at.pc = "hp"
    \* the keys of the children fit with what is watched and known
    /\ z = at.i => (p = a => ka = q) /\ (p = b => kb = q)
    /\ z = a => ka = kz
    /\ z = b => kb = kz
    /\ honest /\ at.i > lo => r <= ka /\ (b < n => r <= kb)
    /\ honest => right = (IF Wrong = "child" THEN ka <= kb ELSE ka > kb) /\ stop = (k <= kc)
    /\ IF a >= n \/ stop THEN at' = Pos("end", at.i, 0, 0) /\ UNCHANGED <<kz, q, r>>
       ELSE /\ at' = Pos("hp", c, 0, 0) /\ r' = kc
            /\ kz' = IF z = at.i THEN kc ELSE IF z = c THEN k ELSE kz
            /\ q' = IF p = c THEN k ELSE IF p = at.i THEN kc ELSE q
    /\ got' = [i |-> at.i, j |-> c, ok |-> a >= n \/ (at.i < c /\ c < n)]
    /\ UNCHANGED <<n, lo, hi, p, z, k, honest, f>>
InvHp == IndHp /\ got.ok

(* ---- where each part begins satisfies its invariant ---- *)
Starts ==
  /\ Any /\ 0 <= lo /\ lo <= hi /\ hi <= n
  /\ \/ at = Pos("se", lo, hi, 0) /\ r = hi - lo /\ lo <= p /\ p <= q /\ q <= hi
     \/ at = Pos("is", p, p, 0) /\ 0 < p /\ p < n /\ 0 <= z /\ z < p
     \/ at = Pos("mg", 0, p, 0) /\ 0 < p /\ p < n
     \* as NextMe leaves it (InvMe)
     \/ at = Pos("pa", lo, hi, 0) /\ ~f /\ lo < hi /\ hi < n /\ lo <= z /\ z <= hi /\ lo <= p /\ p <= hi /\ (z = lo => kz = k) /\ (z = p => kz <= k)
     \* everything behind lo has been sifted
     \/ at = Pos("hp", lo, 0, 0) /\ lo < n /\ lo <= z /\ Child(z, p) /\ p < n /\ (IF z = lo THEN kz = k ELSE kz <= q)
Unmoved == UNCHANGED vars
AtStart == CASE at.pc = "se" -> InvSe [] at.pc = "is" -> InvIs [] at.pc = "mg" -> InvMg [] at.pc = "pa" -> InvPa [] OTHER -> InvHp
=============================================================================
