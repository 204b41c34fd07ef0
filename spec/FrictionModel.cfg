SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Approximates ListingSound Emit
CHECK_DEADLOCK FALSE
