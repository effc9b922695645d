INIT Init
NEXT Next
CONSTANTS MaxFolders = 6
 MaxFrames = 7
INVARIANT EveryFrameOnce
INVARIANT InOrder
