SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Physical Tower Tables Emit
CHECK_DEADLOCK FALSE
