SPECIFICATION TSpec
CONSTANTS Sections = {"poscar", "outcar", "fsets", "fconst", "prim", "super", "mesh", "bands", "bandsl"}
          MaxSec = 3
CHECK_DEADLOCK FALSE
