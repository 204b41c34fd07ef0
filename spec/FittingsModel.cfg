SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Continuous SharpIsCone StagesAdd Positive Emit
CHECK_DEADLOCK FALSE
