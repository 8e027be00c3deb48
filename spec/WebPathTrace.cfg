SPECIFICATION Spec
INVARIANT NeverAboveRoot
INVARIANT DotsFirst
INVARIANT InOrder
INVARIANT Balance
INVARIANT Stable
CHECK_DEADLOCK FALSE
