INIT Init
NEXT Next
CONSTANTS Names = {"a", "b"}
VIEW View
INVARIANT NeverForeign
INVARIANT QuietWithout
PROPERTY OthersKept
ACTION_CONSTRAINT Emit
