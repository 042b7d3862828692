SPECIFICATION Spec
CONSTANTS NC = 2
 NB = 2
 NG = 2
 NS = 1
 NI = 2
 MaxLen = 0
 Gen = FALSE
INVARIANT Inv
PROPERTIES SnapImmutable RestoreExact Independent
CHECK_DEADLOCK FALSE
