SPECIFICATION MCSpec
CONSTANTS Part = "run" MaxOdd = 1 MaxArgs = 2 Emit = TRUE
VIEW View
INVARIANT ToolInv
ACTION_CONSTRAINT EmitEdge
CONSTRAINT EmitStart
CHECK_DEADLOCK FALSE
