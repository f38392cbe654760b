SPECIFICATION OSpec
CONSTANTS MaxOps = 3 MaxX = 4 Emit = FALSE Rich = FALSE
VIEW OView
INVARIANTS SessionInv Usable
ACTION_CONSTRAINT RelatedOk
CHECK_DEADLOCK FALSE
