SPECIFICATION Spec
CONSTANTS
  NMax = 4
  D = 5
  MaxWeights = 3
  RawMax = 2
INVARIANTS InvStrata InvAnchor InvSet InvCount InvDiscrete InvCyclic
CHECK_DEADLOCK FALSE
