INIT Init
NEXT Next
CONSTANTS V = 4
 MaxClips = 2
 MaxWorkers = 3
INVARIANT NeverTwice
INVARIANT EndIsAll
INVARIANT SharesPartition
CHECK_DEADLOCK FALSE
