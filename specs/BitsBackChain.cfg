INIT Init
NEXT Next
CONSTANTS B = 2
 P = 2
 L = 1
 MaxTail = 99
 Depth = 2
 AnyStart = TRUE
 Fams = {0, 4, 7, 11}
 SaveAt = 1
INVARIANT LastInFirstOut
INVARIANT ExtraIsWhatWasTaken
CHECK_DEADLOCK FALSE
