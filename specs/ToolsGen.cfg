SPECIFICATION Spec
CONSTANT Big = FALSE
CHECK_DEADLOCK FALSE
