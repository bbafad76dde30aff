SPECIFICATION Spec
INVARIANT Inside
INVARIANT Kept
INVARIANT Sections
INVARIANT Contract
INVARIANT Depth
INVARIANT Budget
CONSTRAINT Beginnings
PROPERTY Ends
CHECK_DEADLOCK FALSE
