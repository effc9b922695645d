INIT Init
NEXT Next
CONSTANTS Images = {1,2}
 Instances = {1,2}
 MaxLat = 13
VIEW View
INVARIANT Lossless
INVARIANT PayloadIsPure
