SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS FunctionOfLevel Increasing Emit
CHECK_DEADLOCK FALSE
