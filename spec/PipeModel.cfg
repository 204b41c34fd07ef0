SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS OwnRow Consistent WireConsistent Emit
CHECK_DEADLOCK FALSE
