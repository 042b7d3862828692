SPECIFICATION Spec
CONSTANTS NC = 4
 NB = 3
 NG = 2
 NS = 3
 NI = 2
 MaxLen = 26
 Gen = TRUE
CHECK_DEADLOCK FALSE
