CONSTANTS Max = 2
INIT Init
NEXT Next
VIEW View
INVARIANTS NoTestBeforeNaming FidWithinVal
PROPERTIES GroupsSeparate RefusalsChangeNothing
ACTION_CONSTRAINT Emit
