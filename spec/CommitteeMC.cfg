SPECIFICATION Spec
CONSTANTS MaxN = 150
          Spes = {4, 8}
          MaxCs = {1, 4, 5}
          Tcss = {1, 4}
INVARIANTS Partition Even Bounded
CHECK_DEADLOCK FALSE
