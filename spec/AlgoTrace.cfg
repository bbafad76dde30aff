SPECIFICATION Spec
POSTCONDITION Accepted_
CHECK_DEADLOCK FALSE
