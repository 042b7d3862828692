SPECIFICATION Spec
CONSTANTS NH = 4
 NG = 2
 NS = 3
 MaxLen = 24
 Gen = TRUE
CHECK_DEADLOCK FALSE
