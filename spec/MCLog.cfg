SPECIFICATION LSpec
CONSTANTS MaxOps = 3 MaxX = 3 Emit = TRUE
VIEW LView
INVARIANT LogInv
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
