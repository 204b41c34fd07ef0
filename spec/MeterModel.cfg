SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Solvable Expands MoreDropMoreFlow LossIsPart KInverts Emit
CHECK_DEADLOCK FALSE
