SPECIFICATION Spec
CONSTANTS NC = 6
          Dims = {1, 2, 3, 4}
          MaxCells = 12
CHECK_DEADLOCK FALSE
