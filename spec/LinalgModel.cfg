SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS DetRule RankRule InverseRule SolveRule TransposeRule Emit
CHECK_DEADLOCK FALSE
