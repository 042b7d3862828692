SPECIFICATION Spec
CONSTANTS Depth = 2
  Many = 2
INVARIANTS Kept Rooted
CHECK_DEADLOCK FALSE
