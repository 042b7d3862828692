SPECIFICATION Spec
CONSTANTS Depth = 6
  Many = 1
INVARIANTS Kept Rooted Emit
CHECK_DEADLOCK FALSE
