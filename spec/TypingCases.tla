------------------------------ MODULE TypingCases ------------------------------
(***************************************************************************)
(* All situations of every operation; each is a program for rustc.         *)
(***************************************************************************)
EXTENDS Typing, TLC, Json, IOUtils, SequencesExt
Prop == ndJsonDeserialize(IOEnv.FOCUS)[1].prop

Proofs(sig) == { p \in [1..Len(sig.args) -> {"N", "U"}] : \A k \in 1..Len(sig.args) : sig.args[k][1] = "A" => p[k] = "U" }
NoBrand(sig) == [k \in 1..Len(sig.args) |-> 0]
Sit(st, mode, proofs, brands, twin, hold, ann) ==
  [st |-> st, mode |-> mode, proofs |-> proofs, brands |-> brands, twin |-> twin, hold |-> hold, how |-> hold, ann |-> ann]
Case(kind, sig, sit) == [kind |-> kind, op |-> sig.op, args |-> sig.args, res |-> sig.res, sit |-> sit, ok |-> Accepts(sig, sit)]
IsC(sig) == sig.bor # ""
\* every storage, mode and combination of proofs, with the results' proofs named
Plain ==
  UNION { { Case("plain", sig, Sit(st.n, m, p, NoBrand(sig), "sh", "", [k \in 1..Len(sig.res) |-> ResProof(sig, p, k)]))
            : st \in IF IsC(sig) THEN Storages ELSE { Storage("sh") }, m \in IF IsC(sig) THEN {"full", "only"} ELSE {"full"}, p \in Proofs(sig) } : sig \in Sigs }
\* a place where the operation is accepted
Home(sig) == IF sig.need = "grow" THEN "vec" ELSE IF sig.need = "clone" THEN "sh" ELSE "mu"
HomeMode(sig) == IF sig.mode = "only" THEN "only" ELSE "full"
Good(sig) == { p \in Proofs(sig) : ProofsOk(sig, p) }
\* a result claimed with another proof
Flip(p) == IF p = "N" THEN "U" ELSE "N"
WrongResult ==
  UNION { UNION { { Case("result", sig, Sit(Home(sig), HomeMode(sig), p, NoBrand(sig), "sh", "",
      [k \in 1..Len(sig.res) |-> IF k = j THEN Flip(ResProof(sig, p, k)) ELSE ResProof(sig, p, k)])) : j \in 1..Len(sig.res) } : p \in Good(sig) } : sig \in Sigs }
Twins == { Case("twin", Sig("make_twin"), Sit("sh", m, <<"U">>, <<0>>, t.n, "", <<>>)) : t \in Storages, m \in {"full", "only"} }
\* one position comes from elsewhere.  An operation on a container: each argument; on positions: the second.
Foreign ==
  UNION { UNION { { Case("brand", sig, Sit(st, HomeMode(sig), p, [NoBrand(sig) EXCEPT ![j] = 1], "sh", "", <<>>))
      : st \in IF IsC(sig) THEN { s.n : s \in { s \in Storages : Can(s, sig.need) } } ELSE {"sh"}, j \in { k \in (IF IsC(sig) THEN 1 ELSE 2)..Len(sig.args) : sig.args[k][1] # "A" } } : p \in Good(sig) } : sig \in Sigs }
\* something of the container is held over the operation: how says what
Shared == {"elem", "slice", "tail", "all", "scanned", "scannedr", "view"}
Excl == {"melem", "mslice", "mtail", "mall", "pair", "mview"}
OnlyFull == {"mall", "view", "mview"}
CanHold(how, st, m) == (how \in Excl => Exclusive(st)) /\ (how \in OnlyFull => m = "full")
HoldCase(sig, st, m, how, hold) ==
  Case("hold", sig, [Sit(st.n, m, CHOOSE p \in Good(sig) : TRUE, NoBrand(sig), "sh", hold, <<>>) EXCEPT !.how = how])
Places(sig) == { q \in Storages \X {"full", "only"} : ~IsC(sig) \/ (Can(q[1], sig.need) /\ ModeOk(sig, q[2])) }
HoldsOf(hows, hold) ==
  UNION { UNION { { HoldCase(sig, q[1], q[2], how, hold) : how \in { h \in hows : CanHold(h, q[1], q[2]) } }
    : q \in IF IsC(sig) THEN Places(sig) ELSE { <<Storage("mu"), "full">>, <<Storage("vec"), "only">> } } : sig \in Sigs }
Holds == <<HoldsOf(Shared, "sh"), HoldsOf(Excl, "mu"), HoldsOf({"moved"}, "moved"), HoldsOf({"index", "iter", "subs"}, "pos")>>

(* ---- programs with several containers ---- *)
\* outer and nested scope, an unrelated one, a twin, a clone, the index-only form, the two sides of a container split
Boxes == {"outer", "nested", "twin", "dup", "left", "right"}
BrandOf(b) == IF b \in {"outer", "twin", "dup"} THEN "outer" ELSE b
ModeOf(b) == IF b = "twin" THEN "only" ELSE "full"
Kinds == {"I", "R", "Q", "P", "S"}
Pointer(k) == k \in {"Q", "P", "S"}
Made(k, b) == ~Pointer(k) \/ ModeOf(b) = "full"
Mixed == { [kind |-> "mixed", pk |-> k, made |-> b, used |-> u,
            ok |-> BrandOf(b) = BrandOf(u) /\ (Pointer(k) => ModeOf(u) = "full")]
           : k \in Kinds, b \in Boxes, u \in Boxes } \ { [kind |-> "mixed", pk |-> k, made |-> "twin", used |-> u, ok |-> o] : k \in {"Q", "P", "S"}, u \in Boxes, o \in BOOLEAN }
Things == Kinds \union {"C", "RI", "PI", "SD"}
\* leaving the scope
Escapes == { [kind |-> "escape", pk |-> k, how |-> h, ok |-> FALSE] : k \in Things, h \in {"return", "assign", "boxed", "closure", "split"} }
           \union { [kind |-> "escape", pk |-> k, how |-> h, ok |-> TRUE] : k \in {"usize", "copy", "unit"}, h \in {"return", "assign"} }
\* changing the brand of a value
Variance == { [kind |-> "variance", pk |-> k, how |-> h, ok |-> h = "same"] : k \in Things, h \in {"shrink", "grow", "static", "same", "shrinkref", "unrelated"} }
\* making one out of nothing
Forgery == { [kind |-> "forge", pk |-> k, how |-> h, ok |-> FALSE] : k \in Kinds \union {"C"}, h \in {"literal", "new", "default", "field", "from"} }
\* safe code cannot vouch for a storage, a position or a container of its own
UnsafeTraits == {"Trustworthy", "Contiguous", "ContiguousMut", "GetUnchecked", "GetUncheckedMut", "FixedLength", "Pushable", "PointerRange", "ContainerRef", "OnePointRange"}
Vouch == { [kind |-> "vouch", what |-> t, ok |-> FALSE] : t \in UnsafeTraits }
\* nor access elements without a check, or the storage behind the container's back
UnsafeCalls == {"xget_unchecked", "xget_unchecked_mut", "insert_unchecked", "dereference"}
Unsafe == { [kind |-> "call", what |-> t, ok |-> FALSE] : t \in UnsafeCalls }
Backdoor == { [kind |-> "backdoor", what |-> t, ok |-> FALSE] : t \in {"array", "array_mut", "arr", "deref", "as_mut", "as_ref", "into", "borrow_mut", "index_usize", "index_raw_range"} }
\* a range of two positions would have to be in order
TwoPoint == { [kind |-> "twopoint", what |-> t, ok |-> t \in {"from", "to"}] : t \in {"from", "to", "both", "inclusive", "toinclusive"} }
            \union { [kind |-> "twopoint", what |-> t, ok |-> t \in {"pfrom", "pto"}] : t \in {"pfrom", "pto", "pboth", "pinclusive"} }
\* a position without a proof does not become one with a proof by asking for it
Claims == { [kind |-> "claim", pk |-> k, how |-> h, ok |-> FALSE] : k \in Kinds, h \in {"coerce", "into", "ref", "mutref", "array", "clone", "dyn"} }
          \union { [kind |-> "claim", pk |-> k, how |-> "test", ok |-> TRUE] : k \in {"R", "P", "S"} }

Needed(S) == { c \in S : c.ok \/ ~Lenient(Sig(c.op), c.sit) }
Cases == IF Prop = "C12" THEN <<Needed(Plain), WrongResult, Twins, Claims>> \o Holds ELSE <<Foreign, Mixed, Escapes, Variance, Forgery, Vouch, Unsafe, Backdoor, TwoPoint>>

VARIABLE cs
Init == \E g \in 1..Len(Cases) : cs \in Cases[g]
Next == FALSE /\ cs' = cs
Spec == Init /\ [][Next]_cs

(* ---- laws of the table ---- *)
\* nothing can be done without a proof that cannot be done with one
Forget(sit, k) == [sit EXCEPT !.proofs[k] = "U", !.ann = <<>>]
ProofsHelp == cs.kind = "plain" =>
  \A k \in 1..Len(cs.args) : ((\A j \in 1..Len(cs.args) : cs.args[j][2] # "=") /\ Accepts(Sig(cs.op), Forget(cs.sit, k))) => Accepts(Sig(cs.op), [cs.sit EXCEPT !.ann = <<>>])
\* whatever is possible with shared storage is possible with exclusive storage, except duplicating
ExclusiveHelps == cs.kind = "plain" /\ cs.ok /\ cs.op # "clone" /\ cs.sit.st = "sh" => Accepts(Sig(cs.op), [cs.sit EXCEPT !.st = "mu"])
\* no container can both grow and be duplicated, twinned or give out pointers
GrowAlone == cs.kind = "plain" /\ cs.op = "push" /\ cs.ok =>
  \A s \in ContainerSigs : Accepts(s, [cs.sit EXCEPT !.proofs = [k \in 1..Len(s.args) |-> "N"], !.brands = [k \in 1..Len(s.args) |-> 0], !.ann = <<>>])
     => s.need \notin {"fixed", "clone"} /\ s.mode # "full"
\* a result is only N where an argument was, or a test was made
Emitted == TLCGet("distinct") > 0 /\ ndJsonSerialize(IOEnv.OUT, FlattenSeq([g \in 1..Len(Cases) |-> SetToSeq(Cases[g])]))
=============================================================================
