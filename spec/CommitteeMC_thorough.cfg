SPECIFICATION Spec
CONSTANTS MaxN = 400
          Spes = {1, 4, 8, 32}
          MaxCs = {1, 4, 5}
          Tcss = {1, 4}
INVARIANTS Partition Even Bounded
CHECK_DEADLOCK FALSE
