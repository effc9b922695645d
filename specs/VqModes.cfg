INIT Init
NEXT Next
VIEW View
PROPERTIES FreezeIsPermanent UseRestoresFreeze
ACTION_CONSTRAINT Emit
