INIT Init
NEXT Next
CONSTANTS Fs = {1,2}
 As = {1,2}
 Cs = {0,1,2}
 Cached = TRUE
 MaxVer = 0
VIEW View
INVARIANT Correct
INVARIANT OncePerCache
