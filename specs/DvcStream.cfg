CONSTANTS Frames = {1, 2} MaxGop = 2 MaxFlight = 2
INIT Init
NEXT Next
VIEW View
INVARIANTS NoDrift DecodedAgainstItsBase Prefix CodedNeedsTables GeometryInverts
ACTION_CONSTRAINT Emit
