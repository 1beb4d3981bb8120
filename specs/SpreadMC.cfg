SPECIFICATION Spec
CONSTANTS
 Values = {0, 3, 4, 6, 7, 9}
 MaxLen = 4
 Bins = {1, 2, 3, 5}
INVARIANTS Right Mirror Merge Ends Only1
CHECK_DEADLOCK FALSE
