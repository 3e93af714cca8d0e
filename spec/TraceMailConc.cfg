SPECIFICATION Spec
CONSTANTS
  Threads = {0, 1, 2, 3, 4, 5, 6, 7, 8}
  Slots = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
  Hands = {0}
CHECK_DEADLOCK FALSE
