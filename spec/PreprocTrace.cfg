SPECIFICATION PSpec
INVARIANT TrueLine
INVARIANT NoCycle
INVARIANT Bounded
PROPERTY OnlyAppends
PROPERTY Consumes
PROPERTY OnlyEntriesSet
PROPERTY HeaderEndsOnce
CHECK_DEADLOCK FALSE
