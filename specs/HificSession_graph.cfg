INIT Init
NEXT Next
CONSTANTS Images = {1,2}
 Instances = {1,2}
 MaxLat = 2
CONSTRAINT OneLatent
VIEW GraphView
ACTION_CONSTRAINT Emit
