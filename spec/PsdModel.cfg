SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Laws Grows Nested Emit
CHECK_DEADLOCK FALSE
