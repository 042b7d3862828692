SPECIFICATION Spec
CONSTANTS W = 3
 H = 3
 Haz = {a, b}
 MaxBox = 1
INVARIANTS CellsExact CleanExact NeverTooFar
CHECK_DEADLOCK FALSE
