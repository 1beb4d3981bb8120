SPECIFICATION Spec
CONSTANTS
 K = 8
 MaxOps = 5
 Gs = {0, 1, 3}
VIEW view
INVARIANTS Legendre Positive Dulong ThirdLaw Spread
CHECK_DEADLOCK FALSE
