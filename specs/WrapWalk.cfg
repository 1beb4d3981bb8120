SPECIFICATION GenSpec
CONSTANTS
 MaxOps = 24
 Moves <- Small
 Images <- Wide
 Ns = {1, 2, 3}
CHECK_DEADLOCK FALSE
