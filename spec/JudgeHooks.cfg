SPECIFICATION SpecC
CHECK_DEADLOCK FALSE
INVARIANT Verdict
CONSTANT JudgeOf <- JudgeHooks
