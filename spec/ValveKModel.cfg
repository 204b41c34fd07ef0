SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS NarrowLoses NoSeatNoChange RoundTrips BasisComposes Emit
CHECK_DEADLOCK FALSE
