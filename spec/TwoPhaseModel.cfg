SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Order1 Ends Chosen Maps Emit
CHECK_DEADLOCK FALSE
