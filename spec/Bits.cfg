SPECIFICATION BSpec
CONSTANT W = 3
CONSTANT Words = 2
INVARIANT Yielded
INVARIANT Compared
PROPERTY Ends
INVARIANT Emitted
CHECK_DEADLOCK FALSE
