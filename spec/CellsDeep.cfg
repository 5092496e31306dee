SPECIFICATION MSpec
CONSTANT Side = 4
CONSTANT Values = {1, 2}
CONSTANT Writes = 4
INVARIANT Refines
INVARIANT Apart
INVARIANT Judged
INVARIANT Emitted
CHECK_DEADLOCK FALSE
