SPECIFICATION Spec
CONSTANTS NC = 6
          Dims = {1, 2, 3}
          MaxCells = 4
CHECK_DEADLOCK FALSE
