SPECIFICATION Spec
CONSTANTS
  NMax = 3
  D = 4
  MaxWeights = 2
  RawMax = 2
INVARIANTS InvStrata InvAnchor InvSet InvCount InvDiscrete InvCyclic
CHECK_DEADLOCK FALSE
