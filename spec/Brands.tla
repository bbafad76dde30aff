-------------------------------- MODULE Brands --------------------------------
(***************************************************************************)
(* Why the rules of Typing.tla are what they are.  Any well typed program  *)
(* over several containers: opening and closing scopes, twins, clones,     *)
(* index-only mode, growth, positions of every kind, element borrows.      *)
(* Steps are guarded by the verdicts of Typing (Allowed) and by the rules  *)
(* on brands.  Off names rules that are dropped: with none dropped no      *)
(* access goes wrong (Safe); with any one dropped TLC finds a program that *)
(* does (lib/type_checks.py runs every one).                               *)
(***************************************************************************)
EXTENDS Typing, TLC
CONSTANTS Off, MaxLen, MaxBoxes, MaxVals, MaxSteps
Rules == {"brand", "proof", "mode", "need", "borrow", "result", "fresh", "escape", "invariant", "twinlen", "twinfixed"}
ASSUME Off \subseteq Rules
Rule(name, cond) == name \in Off \/ cond
MINB(a, b) == IF a < b THEN a ELSE b

VARIABLES mem,    \* memory blocks: length, generation (a new one when it moves)
          boxes,  \* containers in scope
          vals,   \* positions the program holds
          held,   \* element borrows: of which container, exclusive or not
          brands, \* how many brands have been made, and which of them have escaped
          wrong,  \* what went wrong, if anything
          steps
vars == <<mem, boxes, vals, held, brands, wrong, steps>>

Ids == DOMAIN boxes
Len_(b) == mem[boxes[b].mem].len
Gen_(b) == mem[boxes[b].mem].gen
HoldOn(b) == IF \E h \in held : h.box = b /\ h.excl THEN "mu" ELSE IF \E h \in held : h.box = b THEN "sh" ELSE ""
Allowed(op, b, args) ==
  LET sig == Sig(op)
      proofs == [k \in 1..Len(args) |-> args[k].pf] IN
  /\ \A k \in 1..Len(args) : args[k].k = sig.args[k][1]
  /\ Rule("brand", BrandsOk([k \in 1..Len(args) |-> args[k].br], boxes[b].br))
  /\ Rule("proof", ProofsOk(sig, proofs))
  /\ Rule("mode", ModeOk(sig, boxes[b].mode))
  /\ Rule("need", Can(Storage(boxes[b].st), sig.need))
  /\ Rule("borrow", HoldOk(sig, HoldOn(b)))
Res(op, args, j) == IF "result" \in Off THEN "N" ELSE ResProof(Sig(op), [k \in 1..Len(args) |-> args[k].pf], j)

V(k, lo, hi, pf, br, m, g) == [k |-> k, lo |-> lo, hi |-> hi, pf |-> pf, br |-> br, mem |-> m, gen |-> g]
Idx(b, lo, pf) == V("I", lo, lo, pf, boxes[b].br, 0, 0)
Rng(b, lo, hi, pf) == V("R", lo, hi, pf, boxes[b].br, 0, 0)
Ptr(b, lo, pf) == V("Q", lo, lo, pf, boxes[b].br, boxes[b].mem, Gen_(b))
PRng(b, lo, hi, pf) == V("P", lo, hi, pf, boxes[b].br, boxes[b].mem, Gen_(b))
Like(v, k, lo, hi, pf) == [v EXCEPT !.k = k, !.lo = lo, !.hi = hi, !.pf = pf]
Keep(S) == vals' = vals \union S /\ Cardinality(vals') <= MaxVals
Same == UNCHANGED <<mem, boxes, held, brands, wrong>>
Tick == steps < MaxSteps /\ wrong = "" /\ steps' = steps + 1

(* ---- scopes ---- *)
BrandChoices ==
  { brands.made + 1 } \union (IF "fresh" \in Off /\ brands.made > 0 THEN { brands.made } ELSE {}) \union brands.gone
Open(st, n, b) ==
  /\ b \notin Ids /\ Cardinality(Ids) < MaxBoxes
  /\ \E br \in BrandChoices :
       /\ boxes' = [x \in Ids \union {b} |-> IF x = b THEN [st |-> st, mode |-> "full", br |-> br, mem |-> b] ELSE boxes[x]]
       /\ brands' = [brands EXCEPT !.made = IF br > @ THEN br ELSE @]
  /\ mem' = [mem EXCEPT ![b] = [len |-> n, gen |-> @.gen + 1]]
  /\ UNCHANGED <<vals, held, wrong>>
\* the scope ends: its container goes away (with its twins and clones) and its positions with it
Close(b) ==
  LET gone == { x \in Ids : boxes[x].br = boxes[b].br } IN
  /\ ~\E h \in held : h.box \in gone
  /\ boxes' = [x \in Ids \ gone |-> boxes[x]]
  /\ mem' = [m \in DOMAIN mem |-> IF \E x \in gone : boxes[x].mem = m THEN [mem[m] EXCEPT !.len = 0, !.gen = @ + 1] ELSE mem[m]]
  /\ vals' = IF "escape" \in Off THEN vals ELSE { v \in vals : v.br # boxes[b].br }
  /\ brands' = IF "escape" \in Off THEN [brands EXCEPT !.gone = @ \union { boxes[b].br }] ELSE brands
  /\ UNCHANGED <<held, wrong>>
\* subtyping would let a position change its brand
Recast(v, b) ==
  /\ "invariant" \in Off /\ v.br # boxes[b].br
  /\ Keep({ [v EXCEPT !.br = boxes[b].br] }) /\ Same

(* ---- containers ---- *)
Only(b) == Allowed("only_index", b, <<>>) /\ boxes' = [boxes EXCEPT ![b].mode = "only"] /\ UNCHANGED <<mem, vals, held, brands, wrong>>
Twin(b, st, n, x) ==
  /\ x \notin Ids /\ Cardinality(Ids) < MaxBoxes
  /\ Rule("need", Can(Storage(boxes[b].st), "fixed")) /\ Rule("borrow", HoldOk(Sig("make_twin"), HoldOn(b)))
  /\ Rule("twinfixed", Fixed(Storage(st)))
  /\ Rule("twinlen", n = Len_(b))
  /\ boxes' = [y \in Ids \union {x} |-> IF y = x THEN [st |-> st, mode |-> "only", br |-> boxes[b].br, mem |-> x] ELSE boxes[y]]
  /\ mem' = [mem EXCEPT ![x] = [len |-> n, gen |-> @.gen + 1]]
  /\ UNCHANGED <<vals, held, brands, wrong>>
\* a shared handle is copied; anything else would have to copy the elements
Dup(b, x) ==
  /\ x \notin Ids /\ Cardinality(Ids) < MaxBoxes
  /\ Allowed("clone", b, <<>>)
  /\ LET copy == ~Duplicable(Storage(boxes[b].st)) IN
     /\ boxes' = [y \in Ids \union {x} |-> IF y = x THEN [boxes[b] EXCEPT !.mem = IF copy THEN x ELSE @] ELSE boxes[y]]
     /\ mem' = IF copy THEN [mem EXCEPT ![x] = [len |-> Len_(b), gen |-> @.gen + 1]] ELSE mem
  /\ UNCHANGED <<vals, held, brands, wrong>>
Push(b) ==
  /\ Allowed("push", b, <<>>) /\ Len_(b) < MaxLen
  /\ Storage(boxes[b].st).base = "vec"          \* a slice has nowhere to grow
  /\ mem' = [mem EXCEPT ![boxes[b].mem] = [len |-> @.len + 1, gen |-> @.gen + 1]]
  /\ Keep({ Idx(b, Len_(b), Res("push", <<>>, 1)) })
  /\ wrong' = IF HoldOn(b) # "" THEN "grown while borrowed" ELSE IF ~Exclusive(Storage(boxes[b].st)) THEN "grown while shared" ELSE wrong
  /\ UNCHANGED <<boxes, held, brands>>

(* ---- positions ---- *)
Made(b) ==
  /\ \/ Allowed("vet", b, <<>>) /\ \E i \in 0..(Len_(b) - 1) : Keep({ Idx(b, i, Res("vet", <<>>, 1)) })
     \/ Allowed("range", b, <<>>) /\ Keep({ Rng(b, 0, Len_(b), Res("range", <<>>, 1)) })
     \/ Allowed("pointer_range", b, <<>>) /\ Keep({ PRng(b, 0, Len_(b), Res("pointer_range", <<>>, 1)) })
     \/ \E v \in vals :
          \/ Allowed("c_split_at", b, <<v>>) /\ Keep({ Rng(b, 0, v.lo, Res("c_split_at", <<v>>, 1)), Rng(b, v.lo, Len_(b), Res("c_split_at", <<v>>, 2)) })
          \/ Allowed("c_split_after", b, <<v>>) /\ Keep({ Rng(b, 0, v.lo + 1, Res("c_split_after", <<v>>, 1)) })
          \/ Allowed("split_at_pointer", b, <<v>>) /\ Keep({ PRng(b, v.lo, Len_(b), Res("split_at_pointer", <<v>>, 2)) })
  /\ Same
Op1(op, v) == v.k = Sig(op).args[1][1] /\ Rule("proof", Meets(<<v.pf>>, 1, Sig(op).args[1][2]))
Derived(v) ==
  LET P1(op) == Res(op, <<v>>, 1)
      e == IF v.k = "R" THEN "I" ELSE "Q" IN
  /\ \/ Op1("I_after", v) /\ Keep({ Like(v, "I", v.lo + 1, v.lo + 1, P1("I_after")) })
     \/ Op1("Q_after", v) /\ Keep({ Like(v, "Q", v.lo + 1, v.lo + 1, P1("Q_after")) })
     \/ v.k \in {"R", "P"} /\
        \/ v.lo < v.hi /\ Op1(v.k \o "_nonempty", v) /\ Keep({ Like(v, v.k, v.lo, v.hi, P1(v.k \o "_nonempty")) })
        \/ Op1(v.k \o "_first", v) /\ Keep({ Like(v, e, v.lo, v.lo, P1(v.k \o "_first")) })
        \/ Op1(v.k \o "_past_the_end", v) /\ Keep({ Like(v, e, v.hi, v.hi, P1(v.k \o "_past_the_end")) })
        \/ Op1(v.k \o "_tail", v) /\ Keep({ Like(v, v.k, v.lo + 1, v.hi, P1(v.k \o "_tail")) })
        \/ Op1(v.k \o "_split_in_half", v) /\
             LET m == v.lo + ((v.hi - v.lo) \div 2) IN
             Keep({ Like(v, v.k, v.lo, m, Res(v.k \o "_split_in_half", <<v>>, 1)), Like(v, v.k, m, v.hi, Res(v.k \o "_split_in_half", <<v>>, 2)) })
  /\ Same
Joined(v, w) ==
  /\ v.k = "R" /\ w.k = "R" /\ Rule("brand", v.br = w.br)
  /\ Keep({ Like(v, "R", IF v.lo < w.lo THEN v.lo ELSE w.lo, IF v.hi > w.hi THEN v.hi ELSE w.hi, Res("R_join_cover_both", <<v, w>>, 1)) })
  /\ Same

(* ---- access ---- *)
\* what reading or writing through v in b touches
Verdict(b, v, lo, hi, write) ==
  IF v.k \in {"Q", "P"} /\ v.mem # boxes[b].mem THEN "reaches another container's memory"
  ELSE IF v.k \in {"Q", "P"} /\ v.gen # Gen_(b) THEN "reaches memory that has moved"
  ELSE IF lo > hi \/ hi > Len_(b) THEN "outside"
  ELSE IF write /\ ~Exclusive(Storage(boxes[b].st)) THEN "writes what is shared"
  ELSE IF write /\ HoldOn(b) # "" THEN "writes what is borrowed"
  ELSE IF HoldOn(b) = "mu" THEN "reads what is borrowed exclusively"
  ELSE ""
Access(b) == \E v \in vals :
  /\ \/ Allowed("get", b, <<v>>) /\ wrong' = Verdict(b, v, v.lo, v.lo + 1, FALSE)
     \/ Allowed("mut_i", b, <<v>>) /\ wrong' = Verdict(b, v, v.lo, v.lo + 1, TRUE)
     \/ Allowed("get_r", b, <<v>>) /\ wrong' = Verdict(b, v, v.lo, v.hi, FALSE)
     \/ Allowed("get_from", b, <<v>>) /\ wrong' = Verdict(b, v, v.lo, Len_(b), FALSE)
     \/ Allowed("mut_to", b, <<v>>) /\ wrong' = Verdict(b, v, 0, v.lo, TRUE)
     \/ Allowed("get_q", b, <<v>>) /\ wrong' = Verdict(b, v, v.lo, v.lo + 1, FALSE)
     \/ Allowed("mut_p", b, <<v>>) /\ wrong' = Verdict(b, v, v.lo, v.hi, TRUE)
     \/ Allowed("get_qfrom", b, <<v>>) /\ wrong' = Verdict(b, v, v.lo, Len_(b), FALSE)
     \/ Allowed("scan_tail", b, <<v>>) /\ wrong' = Verdict(b, v, 0, v.lo + 1, FALSE)
  /\ UNCHANGED <<mem, boxes, vals, held, brands>>
Borrow(b, excl) ==
  /\ Cardinality(held) < 1 /\ Allowed(IF excl THEN "mut_full" ELSE "get_full", b, <<>>)
  /\ held' = held \union { [box |-> b, excl |-> excl] }
  /\ UNCHANGED <<mem, boxes, vals, brands, wrong>>
Return == held # {} /\ held' = {} /\ UNCHANGED <<mem, boxes, vals, brands, wrong>>
Drop == \E v \in vals : vals' = vals \ {v} /\ Same

Kinds_ == {"sh", "mu", "vec"}
Slots == 1..MaxBoxes
Next ==
  /\ Tick
  /\ \/ \E st \in Kinds_, n \in 0..(MaxLen - 1), b \in Slots : Open(st, n, b)
     \/ \E b \in Ids : Close(b) \/ Only(b) \/ Push(b) \/ Made(b) \/ Access(b) \/ Borrow(b, TRUE) \/ Borrow(b, FALSE)
     \/ \E b \in Ids, x \in Slots : Dup(b, x) \/ \E st \in Kinds_, n \in 0..(MaxLen - 1) : Twin(b, st, n, x)
     \/ \E v \in vals : Derived(v) \/ \E w \in vals : Joined(v, w)
     \/ \E v \in vals, b \in Ids : Recast(v, b)
     \/ Return \/ Drop
Init == /\ mem = [m \in Slots |-> [len |-> 0, gen |-> 0]] /\ boxes = <<>> /\ vals = {} /\ held = {}
        /\ brands = [made |-> 0, gone |-> {}] /\ wrong = "" /\ steps = 0
Spec == Init /\ [][Next]_vars

Safe == wrong = ""
\* a position is inside every container it may be used with, and true to its proof
InBounds(v, b) == v.lo <= v.hi /\ v.hi <= Len_(b) /\ (v.pf = "N" => v.lo < (IF v.k \in {"I", "Q"} THEN Len_(b) ELSE v.hi))
Trusted == Off = {} => \A v \in vals, b \in Ids : v.br = boxes[b].br => InBounds(v, b)
BrandIsLength == Off = {} => \A a, b \in Ids : boxes[a].br = boxes[b].br => Len_(a) = Len_(b)
=============================================================================
