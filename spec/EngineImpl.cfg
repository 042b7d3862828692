SPECIFICATION Spec
CONSTANTS NH = 3
 NC = 1
 NS = 1
 MaxDist = 2
INVARIANTS Refines Lists GridRight ReadRule GridLower
CHECK_DEADLOCK FALSE
