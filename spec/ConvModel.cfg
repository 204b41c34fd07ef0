SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS PathIndependent Emit
CHECK_DEADLOCK FALSE
