SPECIFICATION Spec
CONSTANTS Patches = 3 Movers = 2
INVARIANTS Harmless OnlyExits Final Bounded GreyOnlyOutOfOrder
CHECK_DEADLOCK FALSE
