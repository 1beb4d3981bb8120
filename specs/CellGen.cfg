SPECIFICATION Spec
CONSTANTS NC = 5
          Dims = {1, 2}
CHECK_DEADLOCK FALSE
