SPECIFICATION MCSpec
CONSTANTS MaxOps = 3 MaxX = 12 Emit = TRUE
CONSTANT Part = "init"
VIEW View
INVARIANT PcscInv
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
