SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT Tiles
INVARIANT BlankOnly
INVARIANT CoversAll
INVARIANT BlocksNested
INVARIANT LevelsIncrease
INVARIANT TreeOK
INVARIANT PreambleFirst
INVARIANT NumbersGrow
INVARIANT NumbersFitLevel
INVARIANT GeneratedUnique
INVARIANT Afresh
PROPERTY CatGrows
PROPERTY LocksHold
PROPERTY OneRefusal
PROPERTY OnlyEntries
PROPERTY Progress
CHECK_DEADLOCK FALSE
