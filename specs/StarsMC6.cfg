SPECIFICATION Spec
CONSTANTS
 Order = "list"
 Sizes <- Many3
INVARIANTS InStar Once
CHECK_DEADLOCK FALSE
