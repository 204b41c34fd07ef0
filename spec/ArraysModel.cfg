SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Laws Cross Emit
CHECK_DEADLOCK FALSE
