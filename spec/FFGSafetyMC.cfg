SPECIFICATION Spec
CONSTANTS Vals = {v1, v2, v3, v4}
          Quorum = 3
          MaxEpoch = 4
          Roots = {1, 2}
SYMMETRY Perms
INVARIANTS Accountable Consistent
CHECK_DEADLOCK FALSE
