SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS SumIsExact SmallPart ProductIsExact Halves Laws Emit
CHECK_DEADLOCK FALSE
