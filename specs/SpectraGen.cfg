CONSTANT Deep = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
