SPECIFICATION MSpec
CONSTANT Side = 3
CONSTANT Values = {1, 2}
CONSTANT Writes = 3
INVARIANT Refines
INVARIANT Apart
INVARIANT Judged
INVARIANT Emitted
CHECK_DEADLOCK FALSE
