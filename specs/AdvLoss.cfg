CONSTANTS MaxN = 2 K = 3 MaxCost = 1
INIT Init
NEXT Next
INVARIANTS Perfect NeverRealAsFake OnePerPixel GeneratorSeesFakesOnly Binary
