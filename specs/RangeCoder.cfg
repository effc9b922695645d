INIT Init
NEXT Next
CONSTANTS R = 6
 P = 3
 K = 3
 N = 4
 W = 2
INVARIANT Lossless
INVARIANT RoomLeft
INVARIANT ValueInside
INVARIANT RefusedOnlyWhenFull
