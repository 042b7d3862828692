SPECIFICATION Spec
CONSTANTS NC = 5
 NB = 3
 NS = 3
 NL = 40
 Dem <- DemG
 Sup <- SupG
 ItOf <- ItG
 MaxLen = 30
 Gen = TRUE
CHECK_DEADLOCK FALSE
