SPECIFICATION Spec
CONSTANTS Sup <- SupG
 NI = 3
 MaxK = 30
 MaxS = 4
 MaxLen = 24
 Gen = TRUE
CHECK_DEADLOCK FALSE
