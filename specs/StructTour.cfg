SPECIFICATION TourSpec
CONSTANTS NPos = 3
          NPm = 3
          NMass = 3
          Forces <- ForceKinds
          Supers = 2
          MaxHist = 25
CONSTRAINT PrintTour
CHECK_DEADLOCK FALSE
