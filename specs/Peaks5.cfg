SPECIFICATION Spec
CONSTANTS
 MaxModes = 5
 MaxOps = 6
 Gaps = {0, 9, 11, 40000}
 PeakIds = {1, 2}
 AreaIds = {1, 3}
VIEW view
INVARIANTS SetsRight Partition Shared
PROPERTY Apart
CHECK_DEADLOCK FALSE
