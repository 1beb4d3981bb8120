SPECIFICATION Spec
CONSTANTS MaxDiff = 1
          MaxHist = 0
INVARIANTS TypeOK Coherent CommHasAutoRange
PROPERTY RequestsKeepSettings
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
