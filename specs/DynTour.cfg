SPECIFICATION TourSpec
CONSTANTS Objs = {1}
          NSteps = 7
          Crops = {3, 5}
          Sources = {"cart", "scaled", "both", "velonly", "lmppos", "lmpvel", "xdat", "outcar", "hdf5"}
          MaxHist = 5
CONSTRAINT PrintTour
CHECK_DEADLOCK FALSE
