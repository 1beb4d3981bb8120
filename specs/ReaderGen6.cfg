SPECIFICATION GSpec
CONSTANTS MaxSteps = 6
          Limits = {0, 1, 2, 3, 5, 7}
          Lasts = {0, 1, 2, 3, 5, 9}
CHECK_DEADLOCK FALSE
