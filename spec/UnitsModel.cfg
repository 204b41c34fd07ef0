SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS TableLaws Known Emit
CHECK_DEADLOCK FALSE
