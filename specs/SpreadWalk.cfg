SPECIFICATION GenSpec
CONSTANTS
 Crystals <- Names
 MaxOps = 7
CHECK_DEADLOCK FALSE
