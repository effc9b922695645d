CONSTANTS StepH = 5 StepP = 5
INIT Init
NEXT Next
INVARIANTS ValueIsMax ChromaIsRange GreyWithoutSaturation Circle Primaries
