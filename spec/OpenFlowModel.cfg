SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS MoreHead Agree Joins Fits Emit
CHECK_DEADLOCK FALSE
