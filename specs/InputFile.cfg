SPECIFICATION Spec
CONSTANTS Sections = {"poscar", "outcar", "fsets", "fconst", "prim", "super", "mesh", "bands", "bandsl"}
          MaxSec = 4
INVARIANT ReadsMeaning
CHECK_DEADLOCK FALSE
