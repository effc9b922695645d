CONSTANTS N = 6 K = 2 P = 32
INIT Init
NEXT Next
INVARIANTS Monotone Complement NoiseNormalised NoiseNonNegative TailsOrdered TailsSmall TableProper
