SPECIFICATION Spec
CONSTANTS
  Threads = {0, 1, 2, 3, 4, 5, 6, 7}
INVARIANT Invariants
CHECK_DEADLOCK FALSE
