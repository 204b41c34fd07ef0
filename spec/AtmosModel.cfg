SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Published Thins Balanced Emit
CHECK_DEADLOCK FALSE
