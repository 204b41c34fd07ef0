SPECIFICATION Spec
CONSTANT Tier = "quick"
INVARIANTS NoFailureServed GoodStays Recovers AskedFew Laws Emit
CHECK_DEADLOCK FALSE
