SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS OncePerKey MemoIsHistory SumOfDiffs SecondDiffs VarLaw Pascal NoError MeanBelowMax Emit
CHECK_DEADLOCK FALSE
