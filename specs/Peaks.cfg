SPECIFICATION Spec
CONSTANTS
 MaxModes = 4
 MaxOps = 5
 Gaps = {0, 9, 11}
 PeakIds = {1, 2}
 AreaIds = {1, 3}
VIEW view
INVARIANTS SetsRight Partition Shared
PROPERTY Apart
CHECK_DEADLOCK FALSE
