SPECIFICATION Spec
CONSTANTS MaxAtoms = 3
          MaxDim = 2
          Els = {"A", "B"}
INVARIANTS Complete Runs Grouped
CHECK_DEADLOCK FALSE
