SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3, 4} Values = {0, 1} Bounds = {0, 1} Length = 6 Emit = TRUE
INVARIANTS Answers Refines Ordered Consistent Emitted
VIEW Layout
CHECK_DEADLOCK FALSE
