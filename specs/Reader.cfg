SPECIFICATION Spec
CONSTANTS MaxSteps = 5
          Limits = {0, 1, 2, 3, 7}
          Lasts = {0, 1, 2, 9}
INVARIANTS Exact Refusal NeverPartial InOrder Bounded
PROPERTY Terminates
CHECK_DEADLOCK FALSE
