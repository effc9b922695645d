CONSTANTS K = 3 MaxHits = 3
INIT Init
NEXT Next
VIEW View
INVARIANTS EveryVectorCounted MetricsInRange
PROPERTIES ResetForgets MeasureIsPure
ACTION_CONSTRAINT Emit
