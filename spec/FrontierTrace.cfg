SPECIFICATION Spec
INVARIANT Accepted NoDuplicates
CHECK_DEADLOCK FALSE
