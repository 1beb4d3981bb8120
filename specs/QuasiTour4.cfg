SPECIFICATION TourSpec
CONSTANTS MaxDiff = 12
          MaxHist = 4
INVARIANT Coherent
CONSTRAINT PrintTour
CHECK_DEADLOCK FALSE
