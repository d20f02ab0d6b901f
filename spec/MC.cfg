SPECIFICATION Spec
VIEW View
INVARIANT Design
CHECK_DEADLOCK FALSE
