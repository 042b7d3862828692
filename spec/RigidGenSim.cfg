SPECIFICATION Spec
CONSTANTS F = 1
 NR = 3
 MaxLen = 14
 Gen = TRUE
 B = 99
CHECK_DEADLOCK FALSE
