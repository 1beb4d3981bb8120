SPECIFICATION Spec
CONSTANTS Steps = 3
 Line = FALSE
INVARIANTS Once Paired Trace
PROPERTY Same
CHECK_DEADLOCK FALSE
