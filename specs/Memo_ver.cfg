INIT Init
NEXT Next
CONSTANTS Fs = {1,2}
 As = {1,2}
 Cs = {0,1}
 Cached = TRUE
 MaxVer = 1
VIEW View
CONSTRAINT NoRecycle
ACTION_CONSTRAINT Emit
