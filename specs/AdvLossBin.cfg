CONSTANTS MaxN = 3 K = 2 MaxCost = 2
INIT Init
NEXT Next
INVARIANTS Perfect NeverRealAsFake OnePerPixel GeneratorSeesFakesOnly Binary
