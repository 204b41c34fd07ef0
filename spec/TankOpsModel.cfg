SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS TableRule ChebRule Emit
CHECK_DEADLOCK FALSE
