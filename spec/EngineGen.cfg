SPECIFICATION Spec
CONSTANTS NH = 3
 NG = 1
 NS = 2
 MaxLen = 0
 Gen = FALSE
INVARIANT Inv
PROPERTIES RestoreProp Independent SnapStable
CHECK_DEADLOCK FALSE
