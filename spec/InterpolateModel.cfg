SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS Found Window Unity Identity KronrodDegree GaussDegree NotMore Doubles Emit
CHECK_DEADLOCK FALSE
