SPECIFICATION Spec
CONSTANTS MaxLen = 4 Emit = TRUE
CONSTANT Kind = "ber"
INVARIANT Inv
CHECK_DEADLOCK FALSE
