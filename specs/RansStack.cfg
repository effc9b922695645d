INIT Init
NEXT Next
CONSTANTS B = 2
 P = 2
 L = 2
 MaxTail = 9
 Depth = 1
 AnyStart = TRUE
INVARIANT HeadsStayNormal
INVARIANT PopUndoesPush
INVARIANT PushUndoesPop
INVARIANT BitsBackLossless
INVARIANT LastInFirstOut
CONSTRAINT Room
CHECK_DEADLOCK FALSE
