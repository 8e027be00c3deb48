SPECIFICATION Spec
INVARIANT FromText
PROPERTY OnlyMake
CHECK_DEADLOCK FALSE
