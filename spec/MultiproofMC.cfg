SPECIFICATION Spec
CONSTANTS D = 3
MaxBits = 7
INVARIANTS Sound Complete Antichain
CHECK_DEADLOCK FALSE
