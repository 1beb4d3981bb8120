SPECIFICATION Spec
CONSTANTS
 MaxOps = 4
 Moves <- Few
 Images <- Img
 Ns = {1, 2, 3}
INVARIANTS Answered Unique
PROPERTIES Same Follows
VIEW View
CHECK_DEADLOCK FALSE
