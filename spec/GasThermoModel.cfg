SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Inverse Staged Emit
CHECK_DEADLOCK FALSE
