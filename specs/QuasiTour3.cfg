SPECIFICATION TourSpec
CONSTANTS MaxDiff = 12
          MaxHist = 3
INVARIANT Coherent
CONSTRAINT PrintTour
CHECK_DEADLOCK FALSE
