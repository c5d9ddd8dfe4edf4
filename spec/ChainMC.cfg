SPECIFICATION Spec
CONSTANT N = 6
INVARIANTS StatesValid Monotone Sound Complete Healthy
CHECK_DEADLOCK FALSE
