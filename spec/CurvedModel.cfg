SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Raises CritRising PlateDark ListingSound Emit
CHECK_DEADLOCK FALSE
