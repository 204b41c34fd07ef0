SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS CompiledOnce Emit
CHECK_DEADLOCK FALSE
