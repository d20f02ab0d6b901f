SPECIFICATION Spec
INVARIANT Design
CHECK_DEADLOCK FALSE
