SPECIFICATION MCSpec
CONSTANTS MaxOps = 1 MaxX = 4 Emit = TRUE Rich = FALSE
CONSTANT Op = "pse"
VIEW View
INVARIANT TalInv
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
