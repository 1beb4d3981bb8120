CONSTANTS N = 5
Incs = {1, 2, 3, 7}
SPECIFICATION Spec
INVARIANTS Is Phase Quadratic Mirror Alias Const FftPhase FftQuadratic FftMirror Four Coefficients BurgSign BurgOne Division
CHECK_DEADLOCK FALSE
