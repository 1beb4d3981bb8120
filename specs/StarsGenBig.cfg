SPECIFICATION GenSpec
CONSTANT Big = TRUE
CHECK_DEADLOCK FALSE
