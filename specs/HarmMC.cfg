SPECIFICATION Spec
CONSTANTS N1 = 1
 N2 = 4
INVARIANTS Own Rest
PROPERTY Complete
CHECK_DEADLOCK FALSE
