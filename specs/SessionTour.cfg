SPECIFICATION Spec
CONSTANTS
 Tour = TRUE
 NOpt = 5
 NOut = 5
 NUi = 0
 Cost = 2
CHECK_DEADLOCK FALSE
