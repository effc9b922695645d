CONSTANTS Ops = {"add", "exp", "relu", "sin", "linear"} MaxLen = 3 MaxN = 2 MaxCalls = 2
INIT Init
NEXT Next
INVARIANTS TotalIsSum EstimatesOnlyAdd CountedOrReported
