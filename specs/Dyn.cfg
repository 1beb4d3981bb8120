SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
          NSteps = 9
          Crops = {4, 20}
          Sources = {"cart", "both", "lmpvel", "xdat"}
          MaxHist = 0
INVARIANTS Coherent FilesOwned
PROPERTY Isolated
CHECK_DEADLOCK FALSE
