SPECIFICATION GenSpec
CONSTANTS Sections = {"poscar", "outcar", "fsets", "fconst", "prim", "super", "mesh", "bands", "bandsl"}
          MaxSec = 4
CHECK_DEADLOCK FALSE
