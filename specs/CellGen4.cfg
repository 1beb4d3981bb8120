SPECIFICATION Spec
CONSTANTS NC = 5
          Dims = {1, 2, 3, 4}
CHECK_DEADLOCK FALSE
