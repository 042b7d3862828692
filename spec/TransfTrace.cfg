SPECIFICATION Spec
CONSTANT F = 16384
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
