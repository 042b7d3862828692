SPECIFICATION Spec
CONSTANTS N = 4
 Depth = 2
 Haz = {1, 2, 3}
 Family <- Trio
INVARIANTS CertainOK CertainWithOK CollideOK HistoryFree NothingLeft
CHECK_DEADLOCK FALSE
