SPECIFICATION Spec
CONSTANTS Steps = 2
 Line = FALSE
INVARIANTS Once Paired Trace
PROPERTY Same
CHECK_DEADLOCK FALSE
