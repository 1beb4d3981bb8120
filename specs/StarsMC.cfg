SPECIFICATION Spec
CONSTANTS
 Order = "list"
 Sizes <- Few
INVARIANTS InStar Once
CHECK_DEADLOCK FALSE
