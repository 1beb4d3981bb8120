SPECIFICATION Spec
CONSTANTS NOpt = 1
          NOut = 1
          NUi = 2
INVARIANTS Agree Coherent LineDone KeptRange Shown Range Resolution
CHECK_DEADLOCK FALSE
