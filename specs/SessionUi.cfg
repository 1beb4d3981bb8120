SPECIFICATION Spec
CONSTANTS
 Tour = FALSE
 NOpt = 3
 NOut = 1
 NUi = 9
 Cost = 1
CHECK_DEADLOCK FALSE
