SPECIFICATION Spec
CONSTANTS Sup <- SupV
 NI = 1
 MaxK = 4
 MaxS = 2
 MaxLen = 0
 Gen = FALSE
INVARIANTS NoOverdraw OneItemPerHandle GoneIsGone RefExists
CHECK_DEADLOCK FALSE
