SPECIFICATION Spec
CONSTANTS N1 = 2
 N2 = 2
INVARIANTS Own Rest
PROPERTY Complete
CHECK_DEADLOCK FALSE
