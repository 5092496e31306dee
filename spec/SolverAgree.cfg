SPECIFICATION Safe
INVARIANT Agrees
