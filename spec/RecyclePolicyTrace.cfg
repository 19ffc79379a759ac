SPECIFICATION Spec
CONSTANT Unlimited = 1000000000
CHECK_DEADLOCK FALSE
