SPECIFICATION Spec
CONSTANTS
  Mins = {0, 1, 2, 4, 7, 10, 16, 65}
  Maxs = {0, 1, 2, 3, 7, 8, 10, 28, 29, 64, 1000000000}
  Sizes = {1, 3, 8, 9, 30, 100}
  Depth = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
