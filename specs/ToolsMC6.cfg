SPECIFICATION Spec
CONSTANT NMax = 6
INVARIANTS Matched Paired Unordered EveryRow
PROPERTY Ends
CHECK_DEADLOCK FALSE
