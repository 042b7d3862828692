SPECIFICATION Spec
CONSTANTS W = 7
 H = 1
 Haz = {a, b}
 MaxBox = 2
INVARIANTS CellsExact CleanExact NeverTooFar
CHECK_DEADLOCK FALSE
