SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS LeastFit Tables Better Joins Emit
CHECK_DEADLOCK FALSE
