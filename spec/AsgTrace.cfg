SPECIFICATION Spec
INVARIANT Kept
INVARIANT Within
INVARIANT Completed
CHECK_DEADLOCK FALSE
