SPECIFICATION Spec
CONSTANTS MaxOps = 4 Emit = TRUE Wide = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
