SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Physical Joined Pieces Closed Emit
CHECK_DEADLOCK FALSE
