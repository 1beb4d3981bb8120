SPECIFICATION Spec
CONSTANTS NOpt = 0
          NOut = 1
          NUi = 4
INVARIANTS Agree Coherent LineDone KeptRange Shown Range Resolution
CHECK_DEADLOCK FALSE
