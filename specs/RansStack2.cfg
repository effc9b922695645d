INIT Init
NEXT Next
CONSTANTS B = 4
 P = 3
 L = 1
 MaxTail = 9
 Depth = 1
 AnyStart = TRUE
INVARIANT HeadsStayNormal
INVARIANT PopUndoesPush
INVARIANT PushUndoesPop
INVARIANT BitsBackLossless
INVARIANT LastInFirstOut
CONSTRAINT Room
CHECK_DEADLOCK FALSE
