SPECIFICATION Spec
INVARIANT IssuedTrusted
POSTCONDITION Accepted_
CHECK_DEADLOCK FALSE
