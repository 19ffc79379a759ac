SPECIFICATION Spec
CONSTANTS
  N = 5
  Grow = TRUE
  Unlimited = 1000000000
INVARIANTS Empty Bounded Floor Warm CanRecycle
CHECK_DEADLOCK FALSE
