INIT Init
NEXT Next
VIEW View
INVARIANT TablesHaveSource
PROPERTIES NothingAfterRefusal TablesOutlivePrior
ACTION_CONSTRAINT Emit
