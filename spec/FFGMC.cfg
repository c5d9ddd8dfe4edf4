SPECIFICATION Spec
CONSTANTS LowEpochs = 3
Roots = {0, 1}
INVARIANTS AlwaysValid Monotone FinalizedWasJustified Inverse SameOnly NoInvention
CHECK_DEADLOCK FALSE
