SPECIFICATION GSpec
CONSTANTS MaxSteps = 4
          Limits = {0, 1, 2, 7}
          Lasts = {0, 1, 2, 9}
CHECK_DEADLOCK FALSE
