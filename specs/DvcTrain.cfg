CONSTANTS MaxP = 4
INIT Init
NEXT Next
INVARIANTS OnlyOwn OncePerFrame Closed EveryBitCounted Grows
