SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS DetMonotone Emit
CHECK_DEADLOCK FALSE
