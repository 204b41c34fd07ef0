SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Homogeneous Emit EmitRefused
CHECK_DEADLOCK FALSE
