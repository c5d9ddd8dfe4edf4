SPECIFICATION Spec
CONSTANT N = 7
INVARIANTS StatesValid Monotone Sound Complete Healthy
CHECK_DEADLOCK FALSE
