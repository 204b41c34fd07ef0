SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Larger SameAnswer ChokeInverts ScaleInverts Tables Emit
CHECK_DEADLOCK FALSE
