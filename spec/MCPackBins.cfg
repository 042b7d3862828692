SPECIFICATION Spec
CONSTANTS NC = 3
 NB = 2
 NS = 1
 NL = 2
 Dem <- DemV
 Sup <- SupV
 ItOf <- ItV
 MaxLen = 0
 Gen = FALSE
INVARIANTS ConservedInv NoEmptyLayout ImplExact SolExact UnmodRight
PROPERTY SolStable
CHECK_DEADLOCK FALSE
