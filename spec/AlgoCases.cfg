SPECIFICATION Spec
INVARIANTS Satisfiable Functional
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
