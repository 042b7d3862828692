SPECIFICATION Spec
CONSTANTS W = 3
 H = 3
 Haz = {a}
 MaxBox = 3
INVARIANTS CellsExact CleanExact NeverTooFar
CHECK_DEADLOCK FALSE
