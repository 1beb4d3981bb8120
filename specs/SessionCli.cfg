SPECIFICATION Spec
CONSTANTS
 Tour = FALSE
 NOpt = 5
 NOut = 5
 NUi = 0
 Cost = 2
CHECK_DEADLOCK FALSE
