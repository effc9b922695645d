INIT Init
NEXT Next
CONSTANT Cfgs <- Runs
VIEW View
INVARIANT NothingSkipped
INVARIANT DecodingNeedsAll
PROPERTY ProgressKept
PROPERTY Completed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
