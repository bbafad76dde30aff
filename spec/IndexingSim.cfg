SPECIFICATION SimSpec
CONSTANTS
  MaxLen = 5
  MaxGrow = 4
  PoolMax = 0
  MaxFresh = 0
  MaxHandles = 4
  OpSet <- SimOps
  Kinds0 = {"shared", "excl", "grow"}
INVARIANTS TypeOK TrustedInBounds TwinsEqualLength NoDuplicates Dump
PROPERTIES StepLaws NeverShrinks OwnStorage SharedIsConstant
CHECK_DEADLOCK FALSE
