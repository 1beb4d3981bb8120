SPECIFICATION GenSpec
CONSTANTS
 K = 8
 MaxOps = 12
 Gs = {0, 1, 3}
CHECK_DEADLOCK FALSE
