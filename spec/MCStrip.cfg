SPECIFICATION Spec
CONSTANTS NC = 3
 NS = 1
 MaxW = 4
 Dem <- DemV
 ItOf <- ItV
 Iv <- IvV
 MaxLen = 0
 Gen = FALSE
INVARIANTS Conserved AllInside
PROPERTIES FitKeeps GrowKeeps
CHECK_DEADLOCK FALSE
