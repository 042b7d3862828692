SPECIFICATION Spec
CONSTANTS N = 8
 Depth = 3
 Haz = {1, 2}
 Family <- Few
INVARIANTS CertainOK CertainWithOK CollideOK HistoryFree NothingLeft
CHECK_DEADLOCK FALSE
