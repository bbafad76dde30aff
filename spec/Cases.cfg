SPECIFICATION Spec
INVARIANTS LawsHold SubdivideAdmitted
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
