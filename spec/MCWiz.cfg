SPECIFICATION Spec
INVARIANTS Same Members_ LayoutSame
CHECK_DEADLOCK FALSE
PROPERTY QueriesPure
