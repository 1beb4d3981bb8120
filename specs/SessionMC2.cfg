SPECIFICATION Spec
CONSTANTS NOpt = 2
          NOut = 2
          NUi = 0
INVARIANTS Agree Coherent LineDone KeptRange Shown Range Resolution
CHECK_DEADLOCK FALSE
