CONSTANTS MaxSteps = 3 MaxG = 5 MaxBits = 6
INIT Init
NEXT Next
INVARIANTS InRange FirstAtStart LastAtEnd
PROPERTIES StagesAdvance ChangesOnlyAtSteps CostMonotone
CHECK_DEADLOCK FALSE
