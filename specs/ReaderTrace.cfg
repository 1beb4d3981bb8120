SPECIFICATION TSpec
CONSTANTS MaxSteps = 1
          Limits = {0}
          Lasts = {0}
CHECK_DEADLOCK FALSE
