SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  MaxGrow = 1
  PoolMax = 1
  MaxFresh = 4
  MaxHandles = 2
  OpSet <- OpsCfg
  Kinds0 = {"shared", "excl", "grow"}
VIEW view
INVARIANTS TypeOK TrustedInBounds TwinsEqualLength NoDuplicates
PROPERTIES StepLaws NeverShrinks OwnStorage SharedIsConstant RefinesTrustedAccess
CHECK_DEADLOCK FALSE
