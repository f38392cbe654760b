SPECIFICATION MCSpec
CONSTANTS MaxOps = 4 MaxX = 5 Emit = TRUE Rich = FALSE
VIEW View
INVARIANT SessionInv
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
