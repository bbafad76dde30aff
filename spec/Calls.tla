-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Which calls the types admit: argument kinds, capabilities the container *)
(* must have, and the finite argument domains used for model checking.     *)
(***************************************************************************)
EXTENDS Ops

\* Argument kinds: lower case = any proof, upper case = NonEmpty.
Sg(op) ==
  CASE op \in {"i_integer", "i_no_proof", "i_copy", "c_split_at", "before", "range_of_from", "range_of_to",
               "get_from", "get_to", "mut_from", "mut_to", "insert"} -> <<"i">>
    [] op \in {"i_after", "c_split_after", "after", "forward", "forward_by", "backward", "scan_from", "scan_from_rev",
               "get", "set"} -> <<"I">>
    [] op \in {"cmp_i", "ord_i"} -> <<"i", "i">>
    [] op = "swap" -> <<"I", "I">>
    [] op \in {"r_len", "r_is_empty", "r_start", "r_end", "r_as_range", "r_copy", "nonempty", "into_checked", "split_in_half",
               "r_split_at", "contains", "subdivide", "frontiers", "r_no_proof", "first", "upper_middle", "past_the_end",
               "iter", "iter_all", "iter_x", "subdivide_x", "c_split_around", "forward_range_by", "scan_range", "get_r", "mut_r",
               "rotate1_up", "rotate1_down"} -> <<"r">>
    [] op \in {"join", "join_cover", "join_cover_both", "r_forward_range_by", "cmp_r", "ord_r", "index_twice", "zip_mut_raw"} -> <<"r", "r">>
    [] op = "r_forward_by" -> <<"r", "I">>
    [] op \in {"lower_middle", "last", "tail", "init", "advance_", "advance", "advance_by", "advance_back"} -> <<"R">>
    [] op \in {"pr_of_from", "pr_of_to", "distance_to", "split_at_pointer", "get_qfrom", "get_qto", "q_no_proof", "q_ptr",
               "mut_qfrom", "mut_qto", "split_container"} -> <<"q">>
    [] op \in {"scan_tail", "get_q", "q_after"} -> <<"Q">>
    [] op \in {"nonempty_range", "q_eq"} -> <<"q", "q">>
    [] op = "swap_ptr" -> <<"Q", "Q">>
    [] op \in {"scan_pr", "scan_pr_rev", "get_p", "p_len", "p_is_empty", "p_nonempty", "p_split_in_half", "p_first",
               "p_upper_middle", "p_past_the_end", "p_no_proof", "p_to_slice", "p_trait", "p_iter", "p_iter_all", "p_iter_x", "mut_p"} -> <<"p">>
    [] op = "p_eq" -> <<"p", "p">>
    [] op \in {"p_last", "p_tail", "p_init", "p_advance", "p_advance_back", "rotate1_prange"} -> <<"P">>
    [] op \in {"s_len", "s_is_empty", "s_nonempty", "s_split_in_half", "s_first", "s_upper_middle", "s_past_the_end",
               "s_no_proof", "s_to_range", "s_trait"} -> <<"s">>
    [] op = "s_eq" -> <<"s", "s">>
    [] op \in {"s_last", "s_tail", "s_init", "s_advance", "s_advance_back"} -> <<"S">>
    [] OTHER -> <<>>

Fits(ch, x) ==
  CASE ch = "i" -> K(x) = "I" [] ch = "I" -> K(x) = "I" /\ Pf(x) = "N"
    [] ch = "r" -> K(x) = "R" [] ch = "R" -> K(x) = "R" /\ Pf(x) = "N"
    [] ch = "q" -> K(x) = "Q" [] ch = "Q" -> K(x) = "Q" /\ Pf(x) = "N"
    [] ch = "p" -> K(x) = "P" [] ch = "P" -> K(x) = "P" /\ Pf(x) = "N"
    [] ch = "s" -> K(x) = "S" [] ch = "S" -> K(x) = "S" /\ Pf(x) = "N"

ArgSeqs(op, pool) ==
  LET g == Sg(op) IN
  IF Len(g) = 0 THEN { <<>> }
  ELSE IF Len(g) = 1 THEN { <<x>> : x \in { z \in pool : Fits(g[1], z) } }
  ELSE { <<x, y>> : x \in { z \in pool : Fits(g[1], z) }, y \in { z \in pool : Fits(g[2], z) } }

\* the two operands of the total order have the same type
SameType(op, a) == op \in {"ord_i", "ord_r", "q_eq"} => Pf(a[1]) = Pf(a[2])

Numbers(L) == 0..(L + 2) \union {CAP}
NumSeqs(op, L) ==
  CASE op \in {"vet", "contains", "r_split_at", "forward_by", "r_forward_by", "forward_range_by", "r_forward_range_by", "advance_by"} ->
         { <<k>> : k \in Numbers(L) }
    [] op = "vet_range" -> { <<j, k>> : j \in Numbers(L), k \in Numbers(L) }
    [] op = "subdivide" -> { <<k>> : k \in Numbers(L) \ {0} }
    [] op = "subdivide_x" -> { <<d, k>> : d \in 1..(L + 1), k \in 0..(L + 1) }
    [] op \in {"iter_x", "p_iter_x"} ->
         LET far == { 4 * k : k \in 0..(L + 1) } \union { 4 * k + 1 : k \in 0..(L + 1) } IN
         { <<k>> : k \in far } \union { <<j, k>> : j \in far \union {2, 3}, k \in far }
    [] op \in {"scan_from", "scan_from_rev", "scan_range", "scan_tail", "scan_pr", "scan_pr_rev", "zip_mut_raw"} ->
         { <<>> } \union { <<k>> : k \in 1..(L + 1) }
    [] OTHER -> { <<>> }

AnsSeqs(op, L) ==
  CASE op \in {"scan_from", "scan_from_rev", "scan_range", "scan_tail", "scan_pr", "scan_pr_rev"} ->
         UNION { { [j \in 1..k |-> TRUE], [j \in 1..(k + 1) |-> j <= k], [j \in 1..(k + 2) |-> j # k + 1] } : k \in 0..L }
    [] op \in {"iter", "p_iter"} -> UNION { [1..k -> BOOLEAN] : k \in {L + 1} }
    [] OTHER -> { <<>> }

\* capability needed from the container
Need(op) ==
  CASE op \in {"set", "mut_r", "mut_from", "mut_to", "swap", "rotate1_up", "rotate1_down", "index_twice", "zip_mut_raw"} -> "mut"
    [] op = "mut_full" -> "fullmut"
    [] op \in {"push", "insert"} -> "grow"
    [] op \in {"mut_p", "mut_qfrom", "mut_qto", "rotate1_prange", "swap_ptr", "split_container"} -> "ptrmut"
    [] op \in {"pointer_range", "pointer_slice", "pr_of_from", "pr_of_to", "pr_of_full", "nonempty_range", "distance_to", "scan_tail",
               "scan_pr", "scan_pr_rev", "split_at_pointer", "get_q", "get_p", "get_qfrom", "get_qto",
               "q_after", "q_no_proof", "q_ptr", "q_eq", "p_len", "p_is_empty", "p_nonempty", "p_split_in_half", "p_first",
               "p_upper_middle", "p_past_the_end", "p_no_proof", "p_to_slice", "p_trait", "p_eq", "p_iter", "p_iter_all", "p_iter_x", "p_last", "p_tail",
               "p_init", "p_advance", "p_advance_back", "s_len", "s_is_empty", "s_nonempty", "s_split_in_half", "s_first", "s_upper_middle",
               "s_past_the_end", "s_no_proof", "s_to_range", "s_trait", "s_eq", "s_last", "s_tail", "s_init", "s_advance", "s_advance_back"} -> "ptr"
    [] OTHER -> "ro"
\* h: a handle [excl, only, grow]
Admits(h, op) ==
  CASE Need(op) = "ro" -> TRUE
    [] Need(op) = "mut" -> h.excl
    [] Need(op) = "fullmut" -> h.excl /\ ~h.only
    [] Need(op) = "ptr" -> ~h.only
    [] Need(op) = "ptrmut" -> h.excl /\ ~h.only
    [] Need(op) = "grow" -> h.grow /\ h.only

AllOps == {
  "i_integer", "i_after", "i_no_proof", "i_copy", "cmp_i", "ord_i",
  "r_len", "r_is_empty", "r_start", "r_end", "r_as_range", "r_copy", "nonempty", "into_checked", "split_in_half", "r_split_at",
  "contains", "subdivide", "join", "join_cover", "join_cover_both", "frontiers", "r_forward_by", "r_forward_range_by", "r_no_proof",
  "first", "upper_middle", "past_the_end", "lower_middle", "last", "tail", "init", "advance_", "advance", "advance_by", "advance_back",
  "iter", "iter_all", "iter_x", "subdivide_x", "cmp_r", "ord_r",
  "len", "range", "empty_range", "vet", "vet_range", "c_split_at", "c_split_after", "c_split_around", "before", "after",
  "range_of_from", "range_of_to", "range_of_full", "forward", "forward_by", "backward", "forward_range_by",
  "scan_from", "scan_from_rev", "scan_range", "get", "get_r", "get_from", "get_to", "get_full",
  "set", "mut_r", "mut_from", "mut_to", "mut_full", "swap", "rotate1_up", "rotate1_down", "index_twice", "zip_mut_raw", "push", "insert",
  "pointer_range", "pointer_slice", "pr_of_from", "pr_of_to", "pr_of_full", "nonempty_range", "distance_to",
  "scan_tail", "scan_pr", "scan_pr_rev", "split_at_pointer", "get_q", "get_p", "get_qfrom", "get_qto",
  "q_after", "q_no_proof", "q_ptr", "q_eq", "p_len", "p_is_empty", "p_nonempty", "p_split_in_half", "p_first", "p_upper_middle",
  "p_past_the_end", "p_no_proof", "p_to_slice", "p_trait", "p_eq", "p_iter", "p_iter_all", "p_iter_x", "p_last", "p_tail", "p_init", "p_advance",
  "p_advance_back", "s_len", "s_is_empty", "s_nonempty", "s_split_in_half", "s_first", "s_upper_middle", "s_past_the_end",
  "s_no_proof", "s_to_range", "s_trait", "s_eq", "s_last", "s_tail", "s_init", "s_advance", "s_advance_back",
  "mut_p", "mut_qfrom", "mut_qto", "rotate1_prange", "swap_ptr", "split_container" }
=============================================================================
