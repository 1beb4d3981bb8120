SPECIFICATION GenSpec
CONSTANTS
 MaxModes = 3
 MaxOps = 3
 Gaps = {0, 9, 11}
 PeakIds = {1, 2}
 AreaIds = {1, 3}
CHECK_DEADLOCK FALSE
