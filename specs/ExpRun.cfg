INIT Init
NEXT Next
CONSTANTS MaxProg = 3
 BothGiven = TRUE
VIEW View
INVARIANT ProgressIsSaved
PROPERTY OnlyOnRequest
PROPERTY RefusalKeeps
ACTION_CONSTRAINT Emit
