SPECIFICATION Spec
CONSTANTS F = 1
 NR = 2
 MaxLen = 0
 Gen = FALSE
 B = 1
CONSTRAINT Small
INVARIANT Laws
CHECK_DEADLOCK FALSE
