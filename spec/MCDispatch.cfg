SPECIFICATION Spec
INVARIANTS OutcomeOK SameParts Loud
CHECK_DEADLOCK FALSE
