SPECIFICATION Spec
CONSTANTS
 Order = "any"
 Sizes <- Tiny
INVARIANTS InStar Once
CHECK_DEADLOCK FALSE
