SPECIFICATION Spec
CONSTANTS NC = 2
 NB = 1
 NS = 2
 NL = 2
 Dem <- DemV
 Sup <- SupG
 ItOf <- ItV2
 MaxLen = 0
 Gen = FALSE
INVARIANTS ConservedInv NoEmptyLayout ImplExact SolExact UnmodRight
PROPERTY SolStable
CHECK_DEADLOCK FALSE
