SPECIFICATION Spec
CONSTANTS Patches = 2 Movers = 2
INVARIANTS Harmless OnlyExits Final Bounded GreyOnlyOutOfOrder
CHECK_DEADLOCK FALSE
