CONSTANTS MaxStep = 4
INIT Init
NEXT Next
INVARIANTS NothingElseMoves InStep FakesAreFresh SplitDisjoint
PROPERTIES OneAtATime OnlyItsOwnGradient
CHECK_DEADLOCK FALSE
