CONSTANTS MaxL = 5 MaxC = 3 Tip = 9 Extra = 2
INIT Init
NEXT Next
INVARIANTS ChannelsMatch EndsInTip ClippedSide RefusedWhenDeep
