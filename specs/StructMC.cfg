SPECIFICATION Spec
CONSTANTS NPos = 3
          NPm = 3
          NMass = 3
          Forces <- ForceKinds
          Supers = 2
          MaxHist = 0
INVARIANT Coherent
PROPERTY AskPure
CHECK_DEADLOCK FALSE
