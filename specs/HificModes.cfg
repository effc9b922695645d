INIT Init
NEXT Next
VIEW View
INVARIANT FrozenNeverTrains
INVARIANT CompressImpliesTables
PROPERTY FrozenIsPermanent
ACTION_CONSTRAINT Emit
