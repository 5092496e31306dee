SPECIFICATION Spec
INVARIANT Right Agrees
CHECK_DEADLOCK FALSE
