SPECIFICATION Spec
CONSTANTS N = 24
          Len0 = 60
PROPERTY Frame
CHECK_DEADLOCK FALSE
