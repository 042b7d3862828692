SPECIFICATION Spec
CONSTANTS N = 4
 Depth = 2
 Haz = {1}
 Family <- SmallSets
INVARIANTS CertainOK CertainWithOK CollideOK HistoryFree NothingLeft
CHECK_DEADLOCK FALSE
