SPECIFICATION Spec
CONSTANTS W = 4
 H = 3
 Haz = {a}
 MaxBox = 2
INVARIANTS CellsExact CleanExact NeverTooFar
CHECK_DEADLOCK FALSE
