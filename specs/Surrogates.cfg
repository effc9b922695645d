CONSTANTS G = 6 R = 3 B = 1
INIT Init
NEXT Next
INVARIANTS Increasing FixesIntegers Equivariant StaysInCell InverseWhenStrict Odd NeverBelow
PROPERTIES OnlyTowards AboveAlwaysFollows
