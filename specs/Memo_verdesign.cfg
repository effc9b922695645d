INIT Init
NEXT Next
CONSTANTS Fs = {1}
 As = {1,2}
 Cs = {0,1}
 Cached = TRUE
 MaxVer = 2
VIEW View
INVARIANT Correct
INVARIANT OncePerCache
