SPECIFICATION Spec
CONSTANTS
  MaxH = 9
  MaxW = 8
  MaxF = 7
INVARIANTS Divisible Minimal RoundTrip PadIsMirror
