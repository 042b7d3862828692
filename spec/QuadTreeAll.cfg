SPECIFICATION Spec
CONSTANTS N = 4
 Depth = 1
 Haz = {1}
 Family <- AllSets
INVARIANTS CertainOK CertainWithOK CollideOK HistoryFree NothingLeft
CHECK_DEADLOCK FALSE
