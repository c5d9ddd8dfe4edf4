SPECIFICATION Spec
CONSTANTS D = 3
MaxBits = 9
INVARIANTS Sound Complete Antichain
CHECK_DEADLOCK FALSE
