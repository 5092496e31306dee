SPECIFICATION TSpec
INVARIANT EndsWell
INVARIANT Once
PROPERTY EndsEventually
