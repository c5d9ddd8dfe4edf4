SPECIFICATION Spec
CONSTANTS Ops = 2 Ahead = 5 Wide = FALSE
INVARIANTS Followed Determined
CHECK_DEADLOCK FALSE
VIEW View
