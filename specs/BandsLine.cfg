SPECIFICATION Spec
CONSTANTS Steps = 2
 Line = TRUE
INVARIANTS Once Paired Trace
PROPERTY Same
CHECK_DEADLOCK FALSE
