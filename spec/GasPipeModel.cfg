SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS OneUnknown Increasing Decreasing Emit
CHECK_DEADLOCK FALSE
