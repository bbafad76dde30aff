-------------------------------- MODULE Typing --------------------------------
(***************************************************************************)
(* What the compiler has to accept and what it has to reject.              *)
(*                                                                         *)
(* Every operation of the crate has a signature; a program is one          *)
(* operation in a situation (what storage, which mode, which proofs, whose *)
(* brands, what is still borrowed).  Accepts is the verdict.  Brands.tla   *)
(* shows that these rules are what keeps every access inside its           *)
(* container, and that none of them can be dropped; TypingCases.tla        *)
(* enumerates the situations, each of which becomes a program given to     *)
(* rustc.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* ---- storage: a slice or a vector behind a path of references ---- *)
\* outermost first; "s" shared reference, "m" exclusive reference
Storages ==
  { [n |-> "sh",    base |-> "slice", path |-> <<"s">>],
    [n |-> "mu",    base |-> "slice", path |-> <<"m">>],
    [n |-> "rr",    base |-> "slice", path |-> <<"s", "s">>],
    [n |-> "rm",    base |-> "slice", path |-> <<"s", "m">>],
    [n |-> "mr",    base |-> "slice", path |-> <<"m", "s">>],
    [n |-> "mm",    base |-> "slice", path |-> <<"m", "m">>],
    [n |-> "vec",   base |-> "vec",   path |-> <<>>],
    [n |-> "rvec",  base |-> "vec",   path |-> <<"s">>],
    [n |-> "mvec",  base |-> "vec",   path |-> <<"m">>],
    [n |-> "mrvec", base |-> "vec",   path |-> <<"m", "s">>],
    [n |-> "rmvec", base |-> "vec",   path |-> <<"s", "m">>],
    [n |-> "mmvec", base |-> "vec",   path |-> <<"m", "m">>] }
Storage(name) == CHOOSE s \in Storages : s.n = name
\* held exclusively: nothing shared on the way to the elements
Exclusive(s) == \A k \in 1..Len(s.path) : s.path[k] = "m"
Fixed(s) == s.base = "slice"
Growable(s) == s.base = "vec" /\ Exclusive(s)
\* a copy of the handle reaches the same elements: only a shared reference
Duplicable(s) == Fixed(s) /\ s.path # <<>> /\ s.path[1] = "s"
Can(s, need) ==
  CASE need = "" -> TRUE
    [] need = "excl" -> Exclusive(s)
    [] need = "grow" -> Growable(s)
    [] need = "fixed" -> Fixed(s)
    [] need = "clone" -> Duplicable(s)

(* ---- signatures ---- *)
\* args: <<kind, requirement on its proof>>; for an operation on a position
\* the position itself is the first argument.
\* kinds: I index, R range, Q pointer, P pointer range, S pointer slice,
\*        A storage of a twin
\* requirement: "*" any, "N" nonempty, "=" the same proof as the first one
\* res: <<kind, proof>>, proof "N", "U", "1" as the first argument, "+" sum
\* bor: how the container is borrowed, "" if it takes no part
\* keep: the result goes on borrowing the container
Sg(op, bor, need, mode, args, res, keep) ==
  [op |-> op, bor |-> bor, need |-> need, mode |-> mode, args |-> args, res |-> res, keep |-> keep]
C_(op, bor, need, mode, args, res) == Sg(op, bor, need, mode, args, res, FALSE)
K_(op, bor, need, mode, args) == Sg(op, bor, need, mode, args, <<>>, TRUE)
O_(op, args, res) == Sg(op, "", "", "any", args, res, FALSE)
Any1(k) == <<<<k, "*">>>>
Non1(k) == <<<<k, "N">>>>
Any2(k) == <<<<k, "*">>, <<k, "*">>>>
Same2(k) == <<<<k, "*">>, <<k, "=">>>>

ContainerSigs ==
  { C_("len", "sh", "", "any", <<>>, <<>>),
    C_("only_index", "own", "", "any", <<>>, <<>>),
    C_("clone", "sh", "clone", "any", <<>>, <<>>),
    C_("make_twin", "sh", "fixed", "any", <<<<"A", "fixed">>>>, <<>>),
    C_("empty_range", "sh", "", "any", <<>>, <<<<"R", "U">>>>),
    C_("range", "sh", "", "any", <<>>, <<<<"R", "U">>>>),
    C_("vet", "sh", "", "any", <<>>, <<<<"I", "N">>>>),
    C_("vet_range", "sh", "", "any", <<>>, <<<<"R", "U">>>>),
    C_("c_split_at", "sh", "", "any", Any1("I"), <<<<"R", "U">>, <<"R", "1">>>>),
    C_("c_split_after", "sh", "", "any", Non1("I"), <<<<"R", "N">>, <<"R", "U">>>>),
    C_("c_split_around", "sh", "", "any", Any1("R"), <<<<"R", "U">>, <<"R", "U">>>>),
    C_("before", "sh", "", "any", Any1("I"), <<<<"R", "U">>>>),
    C_("c_after", "sh", "", "any", Non1("I"), <<<<"R", "U">>>>),
    C_("range_of_from", "sh", "", "any", Any1("I"), <<<<"R", "U">>>>),
    C_("range_of_to", "sh", "", "any", Any1("I"), <<<<"R", "U">>>>),
    C_("forward", "sh", "", "any", Non1("I"), <<>>),
    C_("forward_by", "sh", "", "any", Non1("I"), <<>>),
    C_("backward", "sh", "", "any", Non1("I"), <<>>),
    C_("forward_range_by", "sh", "", "any", Any1("R"), <<<<"R", "U">>>>),
    C_("scan_from", "sh", "", "any", Non1("I"), <<<<"R", "N">>>>),
    C_("scan_from_rev", "sh", "", "any", Non1("I"), <<<<"R", "N">>>>),
    C_("scan_range", "sh", "", "any", Any1("R"), <<<<"R", "U">>, <<"R", "U">>>>),
    C_("swap", "mu", "excl", "any", <<<<"I", "N">>, <<"I", "N">>>>, <<>>),
    C_("rotate1_up", "mu", "excl", "any", Any1("R"), <<>>),
    C_("rotate1_down", "mu", "excl", "any", Any1("R"), <<>>),
    C_("zip_mut_raw", "mu", "excl", "any", Any2("R"), <<>>),
    K_("index_twice", "mu", "excl", "any", Any2("R")),
    C_("push", "mu", "grow", "only", <<>>, <<<<"I", "N">>>>),
    C_("insert", "mu", "grow", "only", Any1("I"), <<>>),
    K_("get", "sh", "", "any", Non1("I")),
    K_("get_r", "sh", "", "any", Any1("R")),
    K_("get_from", "sh", "", "any", Any1("I")),
    K_("get_to", "sh", "", "any", Any1("I")),
    K_("get_full", "sh", "", "any", <<>>),
    K_("mut_i", "mu", "excl", "any", Non1("I")),
    K_("mut_r", "mu", "excl", "any", Any1("R")),
    K_("mut_from", "mu", "excl", "any", Any1("I")),
    K_("mut_to", "mu", "excl", "any", Any1("I")),
    K_("mut_full", "mu", "excl", "full", <<>>),
    C_("pointer_range", "sh", "", "full", <<>>, <<<<"P", "U">>>>),
    C_("pointer_slice", "sh", "", "full", <<>>, <<<<"S", "U">>>>),
    C_("pr_of_from", "sh", "", "full", Any1("Q"), <<<<"P", "U">>>>),
    C_("pr_of_to", "sh", "", "full", Any1("Q"), <<<<"P", "U">>>>),
    C_("nonempty_range", "sh", "", "full", Any2("Q"), <<<<"P", "N">>>>),
    C_("distance_to", "sh", "", "full", Any1("Q"), <<>>),
    C_("scan_tail", "sh", "", "full", Non1("Q"), <<<<"P", "N">>>>),
    C_("scan_pr", "sh", "", "full", Any1("P"), <<<<"P", "U">>, <<"P", "U">>>>),
    C_("scan_pr_rev", "sh", "", "full", Any1("P"), <<<<"P", "U">>, <<"P", "U">>>>),
    C_("split_at_pointer", "sh", "", "full", Any1("Q"), <<<<"P", "U">>, <<"P", "1">>>>),
    C_("split_container", "mu", "excl", "full", Any1("Q"), <<>>),
    C_("rotate1_prange", "mu", "excl", "full", Non1("P"), <<>>),
    C_("swap_ptr", "mu", "excl", "full", <<<<"Q", "N">>, <<"Q", "N">>>>, <<>>),
    K_("get_q", "sh", "", "full", Non1("Q")),
    K_("get_p", "sh", "", "full", Any1("P")),
    K_("get_qfrom", "sh", "", "full", Any1("Q")),
    K_("get_qto", "sh", "", "full", Any1("Q")),
    K_("mut_p", "mu", "excl", "full", Any1("P")),
    K_("mut_qfrom", "mu", "excl", "full", Any1("Q")),
    K_("mut_qto", "mu", "excl", "full", Any1("Q")),
    C_("zip_p", "sh", "", "full", Any1("P"), <<>>),
    C_("zip_s", "sh", "", "full", Any1("S"), <<>>),
    C_("zip_p2", "sh", "", "full", Any1("P"), <<>>),
    C_("zip_mut_p", "mu", "excl", "full", Any1("P"), <<>>) }

Lengths(k) == { O_(k \o "_len", Any1(k), <<>>), O_(k \o "_is_empty", Any1(k), <<>>) }
\* operations that ranges of indices, of pointers and pointer slices share; e: kind of their positions
RangeSigs(k, e) ==
  Lengths(k) \union
  { O_(k \o "_nonempty", Any1(k), <<<<k, "N">>>>),
    O_(k \o "_split_in_half", Any1(k), <<<<k, "U">>, <<k, "1">>>>),
    O_(k \o "_first", Any1(k), <<<<e, "1">>>>),
    O_(k \o "_upper_middle", Any1(k), <<<<e, "1">>>>),
    O_(k \o "_past_the_end", Any1(k), <<<<e, "U">>>>),
    O_(k \o "_last", Non1(k), <<<<e, "N">>>>),
    O_(k \o "_tail", Non1(k), <<<<k, "U">>>>),
    O_(k \o "_init", Non1(k), <<<<k, "U">>>>),
    O_(k \o "_advance", Non1(k), <<>>),
    O_(k \o "_advance_back", Non1(k), <<>>),
    O_(k \o "_no_proof", Any1(k), <<<<k, "U">>>>),
    O_(k \o "_copy", Any1(k), <<<<k, "1">>, <<k, "1">>>>),
    O_(k \o "_eq", Any2(k), <<>>) }
PositionSigs ==
  RangeSigs("R", "I") \union RangeSigs("P", "Q") \union RangeSigs("S", "Q") \union
  { O_("I_integer", Any1("I"), <<>>),
    O_("I_after", Non1("I"), <<<<"I", "U">>>>),
    O_("I_no_proof", Any1("I"), <<<<"I", "U">>>>),
    O_("I_copy", Any1("I"), <<<<"I", "1">>, <<"I", "1">>>>),
    O_("I_eq", Any2("I"), <<>>),
    O_("I_lt", Any2("I"), <<>>),
    O_("I_partial_cmp", Any2("I"), <<>>),
    O_("I_cmp", Same2("I"), <<>>),
    O_("I_hash", Any1("I"), <<>>),
    O_("R_start_end", Any1("R"), <<>>),
    O_("R_as_range", Any1("R"), <<>>),
    O_("R_split_at", Any1("R"), <<<<"R", "U">>, <<"R", "U">>>>),
    O_("R_contains", Any1("R"), <<<<"I", "N">>>>),
    O_("R_subdivide", Any1("R"), <<<<"R", "N">>>>),
    O_("R_join", Any2("R"), <<<<"R", "+">>>>),
    O_("R_join_cover", Any2("R"), <<<<"R", "1">>>>),
    O_("R_join_cover_both", Any2("R"), <<<<"R", "+">>>>),
    O_("R_frontiers", Any1("R"), <<<<"R", "U">>, <<"R", "U">>>>),
    O_("R_forward_by", <<<<"R", "*">>, <<"I", "N">>>>, <<>>),
    O_("R_forward_range_by", Any2("R"), <<<<"R", "U">>>>),
    O_("R_lower_middle", Non1("R"), <<<<"I", "N">>>>),
    O_("R_advance_", Non1("R"), <<<<"R", "N">>>>),
    O_("R_advance_by", Non1("R"), <<>>),
    O_("R_iter", Any1("R"), <<<<"I", "N">>, <<"R", "U">>>>),
    O_("R_iter_back", Any1("R"), <<<<"I", "N">>>>),
    O_("R_lt", Any2("R"), <<>>),
    O_("R_cmp", Same2("R"), <<>>),
    O_("R_hash", Any1("R"), <<>>),
    O_("Q_ptr", Any1("Q"), <<>>),
    O_("Q_after", Non1("Q"), <<<<"Q", "U">>>>),
    O_("Q_no_proof", Any1("Q"), <<<<"Q", "U">>>>),
    O_("Q_copy", Any1("Q"), <<<<"Q", "1">>, <<"Q", "1">>>>),
    O_("Q_eq", Same2("Q"), <<>>),
    O_("P_iter", Any1("P"), <<<<"Q", "N">>, <<"P", "U">>>>),
    O_("P_iter_back", Any1("P"), <<<<"Q", "N">>>>),
    O_("P_to_slice", Any1("P"), <<<<"S", "1">>>>),
    O_("S_to_range", Any1("S"), <<<<"P", "1">>>>),
    O_("P_trait", Any1("P"), <<<<"Q", "U">>, <<"Q", "U">>>>),
    O_("S_trait", Any1("S"), <<<<"Q", "U">>, <<"Q", "U">>>>) }
Sigs == ContainerSigs \union PositionSigs
Sig(op) == CHOOSE s \in Sigs : s.op = op

(* ---- the rules ---- *)
Meets(proofs, k, req) == CASE req = "*" -> TRUE [] req = "=" -> proofs[k] = proofs[1] [] OTHER -> proofs[k] = req
ProofsOk(sig, proofs) == \A k \in 1..Len(sig.args) : sig.args[k][1] = "A" \/ Meets(proofs, k, sig.args[k][2])
TwinOk(sig, twin) == \A k \in 1..Len(sig.args) : sig.args[k][1] = "A" => Fixed(Storage(twin))
ModeOk(sig, mode) == sig.mode \in {"any", mode}
Add(p, q) == IF p = "N" THEN "N" ELSE q
ResProof(sig, proofs, k) ==
  LET p == sig.res[k][2] IN CASE p = "1" -> proofs[1] [] p = "+" -> Add(proofs[1], proofs[2]) [] OTHER -> p
\* hold: what is borrowed from the container and used again later
\*   "" nothing, "sh" elements shared, "mu" elements exclusively, "moved" the container is gone,
\*   "pos" positions only
HoldOk(sig, hold) ==
  CASE hold \in {"", "pos"} -> TRUE
    [] hold = "sh" -> sig.bor \in {"", "sh"}
    [] hold \in {"mu", "moved"} -> sig.bor = ""
BrandsOk(brands, own) == \A k \in 1..Len(brands) : brands[k] = own

\* rejections that no guarantee needs: lifting them would be an extension
Lenient(sig, sit) ==
  \/ (sig.op = "mut_full" /\ sit.hold = "")
  \/ (\E k \in 1..Len(sig.args) : sig.args[k][2] = "=" /\ sit.proofs[k] # sit.proofs[1])
\* sit: [st, mode, proofs, brands, twin, hold, ann]; brands[k] is the brand of argument k, 0 the operation's own;
\* ann[k] is the proof the program claims for result k
Accepts(sig, sit) ==
  /\ sig.bor # "" => Can(Storage(sit.st), sig.need) /\ ModeOk(sig, sit.mode)
  /\ ProofsOk(sig, sit.proofs)
  /\ TwinOk(sig, sit.twin)
  /\ BrandsOk(sit.brands, 0)
  /\ HoldOk(sig, sit.hold)
  /\ \A k \in 1..Len(sit.ann) : sit.ann[k] = ResProof(sig, sit.proofs, k)
=============================================================================
