SPECIFICATION GenSpec
CONSTANT Big = FALSE
CHECK_DEADLOCK FALSE
