SPECIFICATION Spec
CONSTANTS
  Off <- OffC
  MaxLen <- LenC
  MaxBoxes <- BoxesC
  MaxVals <- ValsC
  MaxSteps <- StepsC
INVARIANTS Safe Trusted BrandIsLength
CHECK_DEADLOCK FALSE
