SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Orbit Tropics EquationOfTime Complementary Raised Noon Continuity Emit
CHECK_DEADLOCK FALSE
