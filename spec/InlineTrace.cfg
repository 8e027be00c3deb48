SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT TypeOK
INVARIANT EscapedOnce
INVARIANT EscapedAngles
INVARIANT NoResidue
PROPERTY PassKept
PROPERTY QuotesKeepText
PROPERTY StepOrder
