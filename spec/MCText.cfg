SPECIFICATION Spec
CONSTANTS MaxLen = 4 Emit = TRUE
CONSTANT Kind = "digits"
INVARIANT Inv
CHECK_DEADLOCK FALSE
