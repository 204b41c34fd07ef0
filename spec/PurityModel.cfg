SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS RightIsKeyed ShownOnlyWhenRepeated Emit
CHECK_DEADLOCK FALSE
