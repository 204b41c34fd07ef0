SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS RootLaw IntDer Leibniz CompLaw AddLaw ChebLaw ClenshawLaw Emit
CHECK_DEADLOCK FALSE
