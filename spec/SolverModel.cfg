SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Bracket Answer OnLine Emit
CHECK_DEADLOCK FALSE
