INIT Init
NEXT Next
CONSTANTS Disk = TRUE
VIEW View
INVARIANT CheckedIsWhole
INVARIANT FreshIsWhole
INVARIANT NothingWithoutRoot
PROPERTY OnlyByForce
ACTION_CONSTRAINT Emit
