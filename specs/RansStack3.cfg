INIT Init
NEXT Next
CONSTANTS B = 2
 P = 2
 L = 2
 MaxTail = 12
 Depth = 3
 AnyStart = FALSE
INVARIANT HeadsStayNormal
INVARIANT PopUndoesPush
INVARIANT PushUndoesPop
INVARIANT BitsBackLossless
INVARIANT LastInFirstOut
CONSTRAINT Room
CHECK_DEADLOCK FALSE
