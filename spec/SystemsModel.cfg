SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS DoneIsSolved ProgressLowers Bounded Emit
CHECK_DEADLOCK FALSE
