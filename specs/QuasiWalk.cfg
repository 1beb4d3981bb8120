SPECIFICATION WalkSpec
CONSTANTS MaxDiff = 12
          MaxHist = 24
INVARIANT Coherent
CHECK_DEADLOCK FALSE
