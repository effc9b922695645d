CONSTANTS MaxT = 5 MaxBits = 4
INIT Init
NEXT Next
INVARIANTS FirstPlusRest WeightedSplit FirstFrameFree
