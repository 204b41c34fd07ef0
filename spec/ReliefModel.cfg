SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS LeastFit Ascending Tables SuperheatFalls Emit
CHECK_DEADLOCK FALSE
