SPECIFICATION Spec
CONSTANTS Depth = 3
  Many = 2
INVARIANTS Kept Rooted
CHECK_DEADLOCK FALSE
