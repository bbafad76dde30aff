SPECIFICATION Spec
INVARIANTS ProofsHelp ExclusiveHelps GrowAlone
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
