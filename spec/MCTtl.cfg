SPECIFICATION MCSpec
CONSTANTS MaxOps = 1 MaxX = 4 Emit = TRUE Rich = FALSE
VIEW View
INVARIANTS TypeOK InvTtl
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
