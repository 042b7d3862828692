SPECIFICATION Spec
CONSTANTS NC = 6
 NS = 3
 MaxW = 8
 Dem <- DemG
 ItOf <- ItG
 Iv <- IvG
 MaxLen = 40
 Gen = TRUE
CHECK_DEADLOCK FALSE
