SPECIFICATION Spec
CONSTANTS Scs = 6
          Qs <- Q5
CHECK_DEADLOCK FALSE
