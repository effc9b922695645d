INIT Init
NEXT Next
INVARIANT Conforms
