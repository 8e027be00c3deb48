SPECIFICATION Spec
INVARIANT CitedLines
INVARIANT FewerCites
INVARIANT InOrder
INVARIANT NoneLeft
INVARIANT Complete
INVARIANT Untested
CHECK_DEADLOCK FALSE
