CONSTANTS NB = 4
INIT Init
NEXT Next
VIEW View
INVARIANTS MeanOfHistory OrderFree
PROPERTY ReadingIsPure
ACTION_CONSTRAINT Emit
