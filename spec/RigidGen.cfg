SPECIFICATION Spec
CONSTANTS F = 1
 NR = 2
 MaxLen = 0
 Gen = FALSE
 B = 2
CONSTRAINT Small
INVARIANT Laws
CHECK_DEADLOCK FALSE
