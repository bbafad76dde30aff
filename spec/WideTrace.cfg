SPECIFICATION Spec
CONSTANTS Base = 4194304
          WMax <- Largest
POSTCONDITION Accepted_
CHECK_DEADLOCK FALSE
