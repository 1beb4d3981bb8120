SPECIFICATION Spec
CONSTANT NMax = 5
INVARIANTS Matched Paired Unordered EveryRow
PROPERTY Ends
CHECK_DEADLOCK FALSE
