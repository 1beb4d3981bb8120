SPECIFICATION TSpec
CONSTANTS
 MaxOps = 0
 Moves <- NoSet
 Images <- NoSet
 Ns = {1}
CHECK_DEADLOCK FALSE
