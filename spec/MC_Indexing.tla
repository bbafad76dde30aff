------------------------------ MODULE MC_Indexing ------------------------------
(* Exhaustive check of the scope state machine for the operations in focus. *)
EXTENDS Indexing, Json, IOUtils
Cfg == ndJsonDeserialize(IOEnv.FOCUS)[1]
OpsCfg == { Cfg.ops[k] : k \in 1..Len(Cfg.ops) } \union { Cfg.base[k] : k \in 1..Len(Cfg.base) }
OpsAll == AllOps \union {"only", "dup", "twin"}
=============================================================================
