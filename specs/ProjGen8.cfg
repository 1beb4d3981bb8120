SPECIFICATION Spec
CONSTANTS Scs = 8
          Qs <- Q9
CHECK_DEADLOCK FALSE
