SPECIFICATION Spec
CONSTANTS Cell <- MCCell
          Sites <- MCSites
          Sc <- MCSc
          Disps <- MCDisps
          Wraps <- MCWraps
INVARIANTS Found Delivered
CHECK_DEADLOCK FALSE
