CONSTANTS MaxT = 7
INIT Init
NEXT Next
INVARIANTS Bounded EndsAtZero FullAfterRamp
PROPERTY RisesThenFalls
