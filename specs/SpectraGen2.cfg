CONSTANT Deep = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
