INIT Init
NEXT Next
CONSTANTS T = 5
 N = 3
 Vals = {0,1,2}
INVARIANT Lossless
INVARIANT WindowBounded
INVARIANT ContextRule
