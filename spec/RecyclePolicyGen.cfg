SPECIFICATION Spec
CONSTANTS
  Mins = {0, 1, 4, 10, 65}
  Maxs = {0, 1, 3, 8, 10, 64, 1000000000}
  Sizes = {1, 3, 8, 9, 30, 100}
  Depth = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
