SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Physical Ideal Joins Emit
CHECK_DEADLOCK FALSE
