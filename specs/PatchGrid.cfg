CONSTANT MaxP = 4
INIT Init
NEXT Next
INVARIANTS BothInside NonOverlapping ShiftedFits NothingMissed GridsDisjoint
