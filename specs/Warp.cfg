CONSTANTS MaxS = 9 MaxK = 200
INIT Init
NEXT Next
INVARIANTS Identity FullWeight AtMostFull Shift Inside
