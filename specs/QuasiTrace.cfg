SPECIFICATION TSpec
CONSTANTS MaxDiff = 12
          MaxHist = 0
INVARIANT ModelTypeOK
CHECK_DEADLOCK FALSE
