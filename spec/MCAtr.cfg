SPECIFICATION Spec
CONSTANTS
  MaxOdd = 1
  MaxGroups = 2
  Emit = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
