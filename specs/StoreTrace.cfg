SPECIFICATION TSpec
CONSTANTS
 N = 7
 Names = {"f", "g", "h"}
 MaxOps = 9
CHECK_DEADLOCK FALSE
