SPECIFICATION WalkSpec
CONSTANTS Objs = {1, 2, 3}
          NSteps = 7
          Crops = {2, 3, 5, 6, 20}
          Sources = {"cart", "scaled", "both", "velonly", "lmppos", "lmpvel", "xdat", "outcar", "hdf5"}
          MaxHist = 30
INVARIANTS Coherent FilesOwned
CHECK_DEADLOCK FALSE
