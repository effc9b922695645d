INIT Init
NEXT Next
CONSTANTS V = 60
 M = 60
 W = 3
INVARIANT Lossless
INVARIANT Nearest
INVARIANT WireValid
