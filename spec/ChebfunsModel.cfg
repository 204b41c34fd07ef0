SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS SeriesRoundTrip SumIsIntegral Fundamental Product ByParts Additive RestrictSame InX Emit
CHECK_DEADLOCK FALSE
