SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Bounded Grows Usable MuEnds Emit
CHECK_DEADLOCK FALSE
