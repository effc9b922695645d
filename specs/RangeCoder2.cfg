INIT Init
NEXT Next
CONSTANTS R = 8
 P = 5
 K = 2
 N = 6
 W = 3
INVARIANT Lossless
INVARIANT RoomLeft
INVARIANT ValueInside
INVARIANT RefusedOnlyWhenFull
