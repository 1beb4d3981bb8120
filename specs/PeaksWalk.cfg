SPECIFICATION GenSpec
CONSTANTS
 MaxModes = 6
 MaxOps = 14
 Gaps = {0, 5, 9, 11, 40000}
 PeakIds = {1, 2, 3, 4}
 AreaIds = {1, 2, 3}
CHECK_DEADLOCK FALSE
