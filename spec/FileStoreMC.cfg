SPECIFICATION Spec
CONSTANTS
  PROTOCOL = "atomic"
  SAVERS = {1, 2}
  CHUNKS = 2
  CRASHES = 1
INVARIANT AlwaysWhole
INVARIANT AlwaysDurable
CHECK_DEADLOCK FALSE
