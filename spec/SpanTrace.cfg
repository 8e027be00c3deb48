SPECIFICATION Spec
INVARIANT ColumnsFit
INVARIANT LineStart
PROPERTY OffsetsGrow
CHECK_DEADLOCK FALSE
