SPECIFICATION Spec
CONSTANTS
  PROTOCOL = "atomic"
  SAVERS = {1, 2, 3}
  CHUNKS = 3
  CRASHES = 2
INVARIANT AlwaysWhole
INVARIANT AlwaysDurable
CHECK_DEADLOCK FALSE
